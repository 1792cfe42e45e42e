----------------------------- MODULE Rationals -----------------------------
(* Exact rational arithmetic over a register file (alg::commutative::Rational).  A value is
   <<num, den>> with den > 0 and num, den coprime; zero is <<0, 1>>.  Division by zero and a
   zero denominator are refused.                                                          *)
EXTENDS Integers, FiniteSets, Sequences
CONSTANTS Reg, Nums, Dens, Bound
VARIABLES reg,   \* Reg -> value or <<>> (unset)
          last
vars == <<reg, last>>
Abs(n) == IF n < 0 THEN 0 - n ELSE n
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF a = 0 THEN Abs(b) ELSE Gcd(b % Abs(a), a)
Norm(n, d) == LET g == Gcd(n, d) s == IF d < 0 THEN -1 ELSE 1 IN <<s * (n \div g), Abs(d) \div g>>
Zero == <<0, 1>>
One == <<1, 1>>
\* through the gcd of the denominators, so that intermediate products stay small
QAdd(p, q) == LET g == Gcd(p[2], q[2]) IN Norm(p[1] * (q[2] \div g) + q[1] * (p[2] \div g), p[2] * (q[2] \div g))
QNeg(p) == <<0 - p[1], p[2]>>
QSub(p, q) == QAdd(p, QNeg(q))
QMul(p, q) == LET g == Gcd(p[1], q[2]) h == Gcd(q[1], p[2]) IN
              IF p[1] = 0 \/ q[1] = 0 THEN Zero
              ELSE <<(p[1] \div g) * (q[1] \div h), (p[2] \div h) * (q[2] \div g)>>
QInv(p) == IF p[1] > 0 THEN <<p[2], p[1]>> ELSE <<0 - p[2], 0 - p[1]>>
QDiv(p, q) == QMul(p, QInv(q))
QAbs(p) == <<Abs(p[1]), p[2]>>
Sgn(n) == IF n < 0 THEN -1 ELSE IF n > 0 THEN 1 ELSE 0
QCmp(p, q) == Sgn(QSub(p, q)[1])
RECURSIVE QSum(_)
QSum(s) == IF s = <<>> THEN Zero ELSE QAdd(s[1], QSum(Tail(s)))
RECURSIVE QProd(_)
QProd(s) == IF s = <<>> THEN One ELSE QMul(s[1], QProd(Tail(s)))

Has(r) == reg[r] # <<>>
Put(r, v) == reg' = [reg EXCEPT ![r] = v] /\ last' = [out |-> "ok", ret |-> 0]
Refuse == UNCHANGED reg /\ last' = [out |-> "panic", ret |-> 0]
Answer(v) == UNCHANGED reg /\ last' = [out |-> "ok", ret |-> v]
New(r, n, d) == IF d = 0 THEN Refuse ELSE Put(r, Norm(n, d))
Add(r, a, b) == Has(a) /\ Has(b) /\ Put(r, QAdd(reg[a], reg[b]))
Sub(r, a, b) == Has(a) /\ Has(b) /\ Put(r, QSub(reg[a], reg[b]))
Mul(r, a, b) == Has(a) /\ Has(b) /\ Put(r, QMul(reg[a], reg[b]))
Div(r, a, b) == Has(a) /\ Has(b) /\ IF reg[b] = Zero THEN Refuse ELSE Put(r, QDiv(reg[a], reg[b]))
Neg(r, a) == Has(a) /\ Put(r, QNeg(reg[a]))
AbsV(r, a) == Has(a) /\ Put(r, QAbs(reg[a]))
Compare(a, b) == Has(a) /\ Has(b) /\ LET c == QCmp(reg[a], reg[b]) IN
    Answer([cmp |-> c, pcmp |-> c, eq |-> c = 0, lt |-> c < 0, le |-> c <= 0, gt |-> c > 0, ge |-> c >= 0])
Larger(r, a, b) == Has(a) /\ Has(b) /\ Put(r, IF QCmp(reg[a], reg[b]) >= 0 THEN reg[a] ELSE reg[b])
Smaller(r, a, b) == Has(a) /\ Has(b) /\ Put(r, IF QCmp(reg[a], reg[b]) <= 0 THEN reg[a] ELSE reg[b])
SumOf(r, xs) == (\A i \in DOMAIN xs : Has(xs[i])) /\ Put(r, QSum([i \in DOMAIN xs |-> reg[xs[i]]]))
ProdOf(r, xs) == (\A i \in DOMAIN xs : Has(xs[i])) /\ Put(r, QProd([i \in DOMAIN xs |-> reg[xs[i]]]))

Init == reg = [r \in Reg |-> <<>>] /\ last = [out |-> "ok", ret |-> 0]
Next == \E r \in Reg :
          \/ \E n \in Nums, d \in Dens : New(r, n, d)
          \/ \E a \in Reg : Neg(r, a) \/ AbsV(r, a)
          \/ \E a \in Reg, b \in Reg : Add(r, a, b) \/ Sub(r, a, b) \/ Mul(r, a, b) \/ Div(r, a, b)
                                       \/ Compare(a, b) \/ Larger(r, a, b) \/ Smaller(r, a, b)
Spec == Init /\ [][Next]_vars
Small == \A r \in Reg : Has(r) => Abs(reg[r][1]) <= Bound /\ reg[r][2] <= Bound
View == reg

Vals == {reg[r] : r \in {q \in Reg : Has(q)}}
Canonical == \A v \in Vals : v[2] > 0 /\ Gcd(v[1], v[2]) = 1 /\ (v[1] = 0 => v = Zero)
FieldLaws == \A p \in Vals, q \in Vals :
   /\ QAdd(p, q) = QAdd(q, p) /\ QMul(p, q) = QMul(q, p)
   /\ QAdd(p, QNeg(p)) = Zero /\ QAdd(p, Zero) = p /\ QMul(p, One) = p
   /\ (p # Zero => QMul(p, QInv(p)) = One)
   /\ QAdd(QSub(p, q), q) = p /\ (q # Zero => QMul(QDiv(p, q), q) = p)
   /\ QMul(p, QAdd(p, q)) = QAdd(QMul(p, p), QMul(p, q))
   /\ QAdd(p, q) = Norm(p[1] * q[2] + q[1] * p[2], p[2] * q[2])
   /\ QMul(p, q) = Norm(p[1] * q[1], p[2] * q[2])
OrderLaws == \A p \in Vals, q \in Vals :
   /\ QCmp(p, q) = 0 - QCmp(q, p)
   /\ QCmp(p, q) = 0 <=> p = q
   /\ QCmp(p, q) = Sgn(p[1] * q[2] - q[1] * p[2])
   /\ (QCmp(p, Zero) >= 0 /\ QCmp(q, Zero) >= 0) => QCmp(QMul(p, q), Zero) >= 0
============================================================================
