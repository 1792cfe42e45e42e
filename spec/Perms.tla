------------------------------- MODULE Perms -------------------------------
(* Bijections of the points 0..M-1 under composition: the group behind
   alg::non_commutative::permutation (cycles, block swaps, one-line lists), and its action
   on sequences and on graphs.  (p * q)(x) = p(q(x)); acting moves item i to place p(i).   *)
EXTENDS Integers, FiniteSets, Sequences
CONSTANTS Reg, MaxM
VARIABLES m,     \* number of points in play
          perm,  \* Reg -> bijection of 0..m-1, or <<>> when unset
          last
vars == <<m, perm, last>>
Pts == 0..(m - 1)
Id == [x \in Pts |-> x]
Comp(p, q) == [x \in Pts |-> p[q[x]]]
Inv(p) == [x \in Pts |-> CHOOSE y \in Pts : p[y] = x]
RECURSIVE Pow(_, _)
Pow(p, k) == IF k = 0 THEN Id ELSE IF k < 0 THEN Pow(Inv(p), 0 - k)
             ELSE LET h == Pow(p, k \div 2) IN IF k % 2 = 0 THEN Comp(h, h) ELSE Comp(p, Comp(h, h))
RECURSIVE InOrder(_)        \* the product of a list applies its elements first to last
InOrder(s) == IF s = <<>> THEN Id ELSE Comp(InOrder(Tail(s)), s[1])
RECURSIVE OrderFrom(_, _, _)
OrderFrom(p, q, k) == IF q = Id THEN k ELSE OrderFrom(p, Comp(p, q), k + 1)
Order(p) == OrderFrom(p, p, 1)
Rng(s) == {s[i] : i \in DOMAIN s}
Bijective(p) == Rng(p) = Pts /\ DOMAIN p = Pts
\* cycles: every point goes to the next one of its cycle
Big(cs) == SelectSeq(cs, LAMBDA c : Len(c) > 1)
Disjoint(cs) == /\ \A i \in DOMAIN cs : \A a, b \in DOMAIN cs[i] : cs[i][a] = cs[i][b] => a = b
                /\ \A i, j \in DOMAIN cs : i # j => Rng(cs[i]) \cap Rng(cs[j]) = {}
OfCycles(cs) == [x \in Pts |->
   IF \E i \in DOMAIN cs : x \in Rng(cs[i])
   THEN LET i == CHOOSE i \in DOMAIN cs : x \in Rng(cs[i])
            k == CHOOSE k \in DOMAIN cs[i] : cs[i][k] = x
        IN IF k = Len(cs[i]) THEN cs[i][1] ELSE cs[i][k + 1]
   ELSE x]
Range(lo, hi) == [i \in 1..(IF hi > lo THEN hi - lo ELSE 0) |-> lo + i - 1]
\* exchange the blocks [a,b) and [c,d), a < b <= c < d, keeping what is between them in between
Blocks(a, b, c, d) == [x \in Pts |-> IF x >= a /\ x < b THEN x + (d - b)
                                     ELSE IF x >= b /\ x < c THEN x + (d - c) - (b - a)
                                     ELSE IF x >= c /\ x < d THEN x - (c - a) ELSE x]
Act(p, xs) == [i \in 1..Len(xs) |-> xs[Inv(p)[i - 1] + 1]]      \* 1-based sequence, 0-based points
ActEdges(p, es) == {{p[x] : x \in e} : e \in es}
Moved(p) == {x \in Pts : p[x] # x}
\* canonical display: cycles by smallest element, each starting with it
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
RECURSIVE Orbit(_, _, _)
Orbit(p, x0, x) == <<x>> \o (IF p[x] = x0 THEN <<>> ELSE Orbit(p, x0, p[x]))
RECURSIVE CanonR(_, _)
CanonR(p, S) == IF S = {} THEN <<>> ELSE LET c == Orbit(p, Min(S), Min(S)) IN <<c>> \o CanonR(p, S \ Rng(c))
Canon(p) == CanonR(p, Moved(p))

Has(r) == perm[r] # <<>>
Put(r, p) == perm' = [perm EXCEPT ![r] = p] /\ last' = [out |-> "ok", ret |-> 0] /\ UNCHANGED m
Answer(v) == UNCHANGED <<m, perm>> /\ last' = [out |-> "ok", ret |-> v]
Refuse == UNCHANGED <<m, perm>> /\ last' = [out |-> "panic", ret |-> 0]
Points(n) == m' = n /\ perm' = [r \in Reg |-> <<>>] /\ last' = [out |-> "ok", ret |-> 0]
FromCycles(r, cs) == IF Disjoint(Big(cs)) THEN Put(r, OfCycles(Big(cs))) ELSE Refuse
FromList(r, xs) == Put(r, [x \in Pts |-> IF x < Len(xs) THEN xs[x + 1] ELSE x])
Cyclic(r, lo, hi) == Put(r, OfCycles(Big(<<Range(lo, hi)>>)))
Swap(r, a, b, c, d) == IF a >= b \/ c >= d THEN Put(r, Id)
                       ELSE IF b <= c THEN Put(r, Blocks(a, b, c, d))
                       ELSE IF d <= a THEN Put(r, Blocks(c, d, a, b)) ELSE Refuse
Identity(r) == Put(r, Id)
Mul(r, a, b) == Has(a) /\ Has(b) /\ Put(r, Comp(perm[a], perm[b]))
Invert(r, a) == Has(a) /\ Put(r, Inv(perm[a]))
Power(r, a, k) == Has(a) /\ Put(r, Pow(perm[a], k))
Product(r, xs) == (\A i \in DOMAIN xs : Has(xs[i])) /\ Put(r, InOrder([i \in DOMAIN xs |-> perm[xs[i]]]))
OrderOf(a) == Has(a) /\ Answer(Order(perm[a]))
Eq(a, b) == Has(a) /\ Has(b) /\ Answer(perm[a] = perm[b])
IsId(a) == Has(a) /\ Answer(perm[a] = Id)

Init == m \in 1..MaxM /\ perm = [r \in Reg |-> [x \in Pts |-> x]] /\ last = [out |-> "ok", ret |-> 0]
Next == \E r \in Reg :
   \/ \E x \in Pts, y \in Pts : FromCycles(r, <<<<x, y>>>>)
   \/ \E a \in 0..m, b \in 0..m : Cyclic(r, a, b)
   \/ \E a \in 0..m, b \in 0..m, c \in 0..m, d \in 0..m : Swap(r, a, b, c, d)
   \/ \E a \in Reg : Invert(r, a) \/ OrderOf(a) \/ IsId(a) \/ \E k \in -3..3 : Power(r, a, k)
   \/ \E a \in Reg, b \in Reg : Mul(r, a, b) \/ Eq(a, b) \/ Product(r, <<a, b, a>>)
Spec == Init /\ [][Next]_vars
View == <<m, perm>>
AllBijective == \A r \in Reg : Has(r) => Bijective(perm[r])
Letters == [i \in 1..m |-> i * 11]
GroupLaws == \A a \in Reg, b \in Reg : LET p == perm[a] q == perm[b] IN
   /\ Comp(p, Inv(p)) = Id /\ Comp(Inv(p), p) = Id
   /\ Inv(Comp(p, q)) = Comp(Inv(q), Inv(p))
   /\ Comp(p, Comp(q, p)) = Comp(Comp(p, q), p)
   /\ Pow(p, -2) = Inv(Comp(p, p))
   /\ Pow(p, Order(p)) = Id /\ \A k \in 1..(Order(p) - 1) : Pow(p, k) # Id
CanonLaws == \A a \in Reg, b \in Reg : LET p == perm[a] q == perm[b] IN
   /\ OfCycles(Canon(p)) = p
   /\ (Canon(p) = Canon(q)) <=> (p = q)
ActionLaws == \A a \in Reg, b \in Reg : LET p == perm[a] q == perm[b] IN
   /\ Act(p, Act(q, Letters)) = Act(Comp(p, q), Letters)
   /\ \A i \in Pts : Act(p, Letters)[p[i] + 1] = Letters[i + 1]
SwapLaws == \A a \in 0..m, b \in 0..m, c \in 0..m, d \in 0..m : (a < b /\ b <= c /\ c < d) =>
   /\ Bijective(Blocks(a, b, c, d))
   /\ LET s == Act(Blocks(a, b, c, d), Letters) IN
      s = SubSeq(Letters, 1, a) \o SubSeq(Letters, c + 1, d) \o SubSeq(Letters, b + 1, c)
          \o SubSeq(Letters, a + 1, b) \o SubSeq(Letters, d + 1, m)
============================================================================
