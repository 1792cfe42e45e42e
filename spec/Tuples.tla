------------------------------ MODULE Tuples ------------------------------
(* Enumeration of the k-element sub-tuples of a slice of length n (util::TupleIterator):
   the odometer that moves the right-most position that can still move and packs the
   positions after it.  NextCall is one call of next(); "done" stays for good.           *)
EXTENDS Integers, FiniteSets, Sequences
CONSTANTS MaxN
VARIABLES n, k, pos,    \* pos: the positions the next call will yield (increasing, 1-based)
          done, out     \* out: result of the last call, <<>> with some = FALSE at the end
vars == <<n, k, pos, done, out>>

First(kk) == [i \in 1..kk |-> i]
CanMove(p, i, nn) == p[i] < nn - (Len(p) - i)
Movable(p, nn) == {i \in 1..Len(p) : CanMove(p, i, nn)}
Max(S) == CHOOSE x \in S : \A y \in S : y <= x
Succ(p, nn) == LET i == Max(Movable(p, nn)) IN
               [j \in 1..Len(p) |-> IF j < i THEN p[j] ELSE p[i] + 1 + (j - i)]
Nothing == [some |-> FALSE, t |-> <<>>]
Start(nn, kk) == n' = nn /\ k' = kk /\ pos' = First(kk) /\ done' = (kk > nn) /\ out' = Nothing
NextCall == /\ UNCHANGED <<n, k>>
            /\ IF done THEN UNCHANGED <<pos, done>> /\ out' = Nothing
               ELSE /\ out' = [some |-> TRUE, t |-> pos]
                    /\ IF Movable(pos, n) = {} THEN done' = TRUE /\ UNCHANGED pos
                       ELSE pos' = Succ(pos, n) /\ UNCHANGED done

(* design model: the calls of one whole enumeration, with what was yielded so far *)
VARIABLE yielded
Init == \E nn \in 0..MaxN, kk \in 0..(MaxN + 1) :
          n = nn /\ k = kk /\ pos = First(kk) /\ done = (kk > nn) /\ out = Nothing /\ yielded = <<>>
Next == NextCall /\ yielded' = IF out'.some THEN Append(yielded, out'.t) ELSE yielded
Spec == Init /\ [][Next]_<<vars, yielded>> /\ WF_<<vars, yielded>>(Next)

Choices(nn, kk) == {s \in SUBSET (1..nn) : Cardinality(s) = kk}
Rng(t) == {t[i] : i \in DOMAIN t}
LexLess(a, b) == \E i \in DOMAIN a : a[i] < b[i] /\ \A j \in 1..(i - 1) : a[j] = b[j]
Increasing == \A j \in DOMAIN yielded : \A i \in 1..(k - 1) : yielded[j][i] < yielded[j][i + 1]
LexOrder == \A j \in 1..(Len(yielded) - 1) : LexLess(yielded[j], yielded[j + 1])
Complete == done => /\ {Rng(yielded[j]) : j \in DOMAIN yielded} = Choices(n, k)
                    /\ Len(yielded) = Cardinality(Choices(n, k))
StaysDone == [][done => (done' /\ ~out'.some)]_<<vars, yielded>>
Terminates == <>done
==========================================================================
