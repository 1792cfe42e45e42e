------------------------------ MODULE Chains ------------------------------
(* Chain complexes of free abelian groups. A matrix is a sequence of sparse columns: each column is a
   function from the rows in which it does not vanish to the entries there.
   ElemDivs gives the elementary divisors by exact integer elimination.                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt
Ab(x) == IF x < 0 THEN -x ELSE x
QuotT(a, b) == IF b > 0 THEN a \div b ELSE -(a \div (-b))     \* remainder in 0..|b|-1
Val(c, t) == IF t \in DOMAIN c THEN c[t] ELSE 0
AddCol(x, y, k) == LET keep == {t \in DOMAIN x \cup DOMAIN y : Val(x, t) + (k * Val(y, t)) # 0}
                   IN [t \in keep |-> Val(x, t) + (k * Val(y, t))]
NonZero(M) == SelectSeq(M, LAMBDA c : DOMAIN c # {})
HasUnit(c) == \E t \in DOMAIN c : Ab(c[t]) = 1
Drop(M, j) == SubSeq(M, 1, j - 1) \o SubSeq(M, j + 1, Len(M))
MinAb(c) == LET S == {Ab(c[t]) : t \in DOMAIN c} IN CHOOSE x \in S : \A y \in S : x <= y
RECURSIVE Elim(_, _)
(* pivots met while eliminating, all positive; M has no zero column *)
Elim(M, acc) ==
   IF M = <<>> THEN acc
   ELSE IF \E j \in DOMAIN M : HasUnit(M[j]) THEN
        LET j == CHOOSE x \in DOMAIN M : HasUnit(M[x]) /\ \A y \in 1..(x - 1) : ~HasUnit(M[y])
            p == M[j]
            t == CHOOSE x \in DOMAIN p : Ab(p[x]) = 1
            rest == TLCEval([i \in 1..(Len(M) - 1) |-> LET c == IF i < j THEN M[i] ELSE M[i + 1] IN
                               IF t \in DOMAIN c THEN AddCol(c, p, -(c[t] * p[t])) ELSE c])
        IN Elim(NonZero(rest), Append(acc, 1))
   ELSE LET mins == [i \in DOMAIN M |-> MinAb(M[i])]
            j == CHOOSE x \in DOMAIN M : \A y \in DOMAIN M : mins[x] <= mins[y]
            p == M[j]
            t == CHOOSE x \in DOMAIN p : Ab(p[x]) = mins[j]
            \* subtract multiples of the pivot column from the others, then of the pivot row from the other rows
            cols == TLCEval([i \in DOMAIN M |-> IF i # j /\ t \in DOMAIN M[i] THEN AddCol(M[i], p, -QuotT(M[i][t], p[t])) ELSE M[i]])
            clean == \A i \in DOMAIN M : i # j => t \notin DOMAIN cols[i]
            left == {x \in DOMAIN p : x # t /\ p[x] % Ab(p[t]) # 0}
        IN IF ~clean THEN Elim(NonZero(cols), acc)
           ELSE IF left = {} THEN Elim(NonZero(Drop(cols, j)), Append(acc, Ab(p[t])))
           ELSE Elim(NonZero([cols EXCEPT ![j] = [x \in left \cup {t} |-> IF x = t THEN p[t] ELSE p[x] % Ab(p[t])]]), acc)
RECURSIVE GcdC(_, _)
GcdC(a, b) == IF b = 0 THEN a ELSE GcdC(b, a % b)
(* a sequence of positive numbers into the invariant factors of the same group: the first one becomes the
   gcd of all, the others are replaced pairwise by least common multiples *)
RECURSIVE Push(_, _, _), Invariant(_)
Push(g, rest, acc) == IF rest = <<>> THEN <<g, acc>>
                      ELSE LET h == GcdC(g, Head(rest)) IN Push(h, Tail(rest), Append(acc, (g \div h) * Head(rest)))
Invariant(s) == IF s = <<>> THEN <<>> ELSE LET x == Push(Head(s), Tail(s), <<>>) IN <<x[1]>> \o Invariant(x[2])
ElemDivs(M) == LET d == Elim(NonZero(M), <<>>)
                   ones == SelectSeq(d, LAMBDA x : x = 1)
                   more == SelectSeq(d, LAMBDA x : x # 1)
               IN ones \o Invariant(more)
RankS(M) == Len(Elim(NonZero(M), <<>>))
Torsion(divs) == SelectSeq(divs, LAMBDA x : x # 1)
(* homology of a complex: sizes of the chain groups and the divisors of the maps d_1 .. d_n (d_0 is zero) *)
HomologyOf(sizes, divs) ==   \* sizes: n+1 numbers (degrees 0..n); divs: n sequences
   [k \in 1..Len(sizes) |->
      [free |-> sizes[k] - (IF k = 1 THEN 0 ELSE Len(divs[k - 1])) - (IF k = Len(sizes) THEN 0 ELSE Len(divs[k])),
       tors |-> IF k = Len(sizes) THEN <<>> ELSE Torsion(divs[k])]]
RECURSIVE Trimmed(_)
Trimmed(h) == IF h # <<>> /\ h[Len(h)].free = 0 /\ h[Len(h)].tors = <<>> THEN Trimmed(SubSeq(h, 1, Len(h) - 1)) ELSE h
(* composition with sparse columns: M after N *)
RECURSIVE SumCols(_, _, _, _)
SumCols(M, c, ts, acc) == IF ts = <<>> THEN acc ELSE SumCols(M, c, Tail(ts), AddCol(acc, M[Head(ts)], c[Head(ts)]))
Apply(M, c) == SumCols(M, c, SetToSeq(DOMAIN c), <<>>)
ComposeZero(M, N) == \A j \in DOMAIN N : DOMAIN Apply(M, N[j]) = {}
=============================================================================
