---------------------------- MODULE FormalSums ----------------------------
(* A register file of formal sums.  A formal sum denotes a function with finite support from
   basis elements (numbers here) to non-zero coefficients; coefficients are exact fractions
   <<n, d>> in lowest terms with d > 0 (d = 1 over the integers).                          *)
EXTENDS Frac, Sequences, FiniteSets, TLC
CONSTANT Reg
VARIABLES v, last
vars == <<v, last>>

Zero == [b \in {} |-> CZero]
Coef(f, b) == IF b \in DOMAIN f THEN f[b] ELSE CZero
Trim(f) == [b \in {x \in DOMAIN f : f[x] # CZero} |-> f[b]]
AddV(f, g) == Trim([b \in (DOMAIN f) \cup (DOMAIN g) |-> CAdd(Coef(f, b), Coef(g, b))])
Scale(f, k) == Trim([b \in DOMAIN f |-> CMul(f[b], k)])
NegV(f) == Scale(f, <<-1, 1>>)
Single(b) == [x \in {b} |-> COne]
RECURSIVE FromList(_)
FromList(bs) == IF bs = <<>> THEN Zero ELSE AddV(Single(Head(bs)), FromList(Tail(bs)))
RECURSIVE SumV(_)
SumV(fs) == IF fs = <<>> THEN Zero ELSE AddV(Head(fs), SumV(Tail(fs)))
Least(S) == CHOOSE x \in S : \A y \in S : x <= y
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>> ELSE <<Least(S)>> \o Sorted(S \ {Least(S)})
(* what a formal sum looks like: basis elements in increasing order with their coefficients *)
Shown(f) == LET s == Sorted(DOMAIN f) IN [i \in DOMAIN s |-> <<f[s[i]][1], f[s[i]][2], s[i]>>]

Set(r, f) == v' = [v EXCEPT ![r] = f] /\ last' = [out |-> "ok", ret |-> 0]
Say(x) == UNCHANGED v /\ last' = [out |-> "ok", ret |-> x]
Refuse == UNCHANGED v /\ last' = [out |-> "panic", ret |-> 0]

MkZero(r) == Set(r, Zero)
MkList(r, bs) == Set(r, FromList(bs))
Add(r, a, b) == Set(r, AddV(v[a], v[b]))
Sub(r, a, b) == Set(r, AddV(v[a], NegV(v[b])))
Neg(r, a) == Set(r, NegV(v[a]))
Mul(r, a, k) == Set(r, Scale(v[a], k))
Div(r, a, k) == IF k = CZero THEN Refuse ELSE Set(r, Scale(v[a], CInv(k)))
AddBasis(r, a, x) == Set(r, AddV(v[a], Single(x)))
SubBasis(r, a, x) == Set(r, AddV(v[a], NegV(Single(x))))
Sum(r, as) == Set(r, SumV([i \in DOMAIN as |-> v[as[i]]]))
Remove(r, i) == \* takes out the i-th summand (counted from 0) and returns it
   IF i >= Cardinality(DOMAIN v[r]) THEN Refuse
   ELSE LET s == Shown(v[r]) IN
        /\ v' = [v EXCEPT ![r] = [b \in (DOMAIN v[r]) \ {s[i + 1][3]} |-> v[r][b]]]
        /\ last' = [out |-> "ok", ret |-> s[i + 1]]
CoefOf(a, x) == IF x \in DOMAIN v[a] THEN Say(<<v[a][x][1], v[a][x][2]>>) ELSE Refuse
Eq(a, b) == Say(v[a] = v[b])

-----------------------------------------------------------------------------
Init == v = [r \in Reg |-> Zero] /\ last = [out |-> "ok", ret |-> 0]
(* a bounded instance for TLC: every expression over two basis elements *)
Small(f) == \A b \in DOMAIN f : AbsI(f[b][1]) <= 2 /\ f[b][2] <= 2
Step3 == \E r, a, b \in Reg : Add(r, a, b) \/ Sub(r, a, b) \/ Sum(r, <<a, b, a>>)
Step2 == \E r, a \in Reg : \/ Neg(r, a) \/ Eq(r, a)
                          \/ \E k \in {<<-1, 1>>, <<2, 1>>, <<0, 1>>} : Mul(r, a, k) \/ Div(r, a, k)
                          \/ \E x \in 1..2 : AddBasis(r, a, x) \/ SubBasis(r, a, x)
Step1 == \E r \in Reg, x \in 1..2 : MkZero(r) \/ MkList(r, <<x, x>>) \/ Remove(r, x - 1) \/ CoefOf(r, x)
Next == (Step1 \/ Step2 \/ Step3) /\ \A q \in Reg : Small(v'[q])
View == v
Spec == Init /\ [][Next]_vars
Canonical == \A r \in Reg : \A b \in DOMAIN v[r] : v[r][b] # CZero /\ v[r][b][2] > 0
Laws == \A a, b \in Reg :
   /\ AddV(v[a], v[b]) = AddV(v[b], v[a])
   /\ AddV(AddV(v[a], v[b]), NegV(v[b])) = v[a]
   /\ Scale(AddV(v[a], v[b]), <<2, 1>>) = SumV(<<v[a], v[b], v[a], v[b]>>)
   /\ (Shown(v[a]) = Shown(v[b])) <=> (v[a] = v[b])
=============================================================================
