---------------------------- MODULE BigInt_MC ----------------------------
(* Checks BigInt against TLC's own integers on operands around the limb boundaries.       *)
EXTENDS BigInt, TLC
VARIABLES x, y
Around == {0, 1, 2, 9, 99, 9998, 9999, 10000, 10001, 19999, 20000, 30000, 40000, 46340}
Vals == Around \cup {0 - v : v \in Around}
Bigger == {99999999, 100000000, 100000001, 123456789, 1000000000}
Vals2 == Vals \cup Bigger \cup {0 - v : v \in Bigger}
Init == x \in Vals2 /\ y \in Vals2
Next == UNCHANGED <<x, y>>
Spec == Init /\ [][Next]_<<x, y>>
Sgn(v) == IF v < 0 THEN -1 ELSE IF v > 0 THEN 1 ELSE 0
WellFormed == IsBig(BOf(x)) /\ IsBig(BAdd(BOf(x), BOf(y))) /\ IsBig(BMul(BOf(x), BOf(y)))
AddOk == BAdd(BOf(x), BOf(y)) = BOf(x + y)
SubOk == BSub(BOf(x), BOf(y)) = BOf(x - y)
MulOk == (x \in Vals /\ y \in Vals) => BMul(BOf(x), BOf(y)) = BOf(x * y)
CmpOk == BCmp(BOf(x), BOf(y)) = Sgn(x - y)
\* beyond 32 bits: ring laws
LawsOk == LET a == BMul(BOf(x), BOf(x)) b == BMul(BOf(y), BOf(y))
              s == BAdd(BOf(x), BOf(y)) d == BSub(BOf(x), BOf(y)) IN
          BMul(s, d) = BSub(a, b)
===========================================================================
