----------------------------- MODULE EdgePaths_MC -----------------------------
(* Words of legal moves on small graphs: the normal form does not depend on cancelling pairs and on the order of
   commuting moves, it is legal, leads to the same configuration and carries every token to the same place. *)
EXTENDS EdgePaths
CONSTANTS NV, MaxTok, MaxLen
VARIABLES G, n, w
vars == <<G, n, w>>
Init == /\ \E k \in 2..NV : G \in {[n |-> k, E |-> S] : S \in SUBSET Pairs(k)}
        /\ DepthFirst(G)
        /\ n \in 1..MaxTok /\ n < G.n
        /\ w = <<>>
Base == 0..(n - 1)
Moves(S) == {m \in (0..(G.n - 1)) \X (0..(G.n - 1)) : StepOk(G, S, <<m>>)}
Now(x) == EndOf(Base, Singles(x))
Next == Len(w) < MaxLen /\ \E m \in Moves(Now(w)) : w' = Append(w, m) /\ UNCHANGED <<G, n>>
Spec == Init /\ [][Next]_vars
RECURSIVE SetSeq(_)
SetSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o SetSeq(S \ {x})
AsPath(L) == [k \in DOMAIN L |-> SetSeq(L[k])]
Ident == [t \in 0..(n - 1) |-> t]
Insert(k, m) == SubSeq(w, 1, k) \o <<m, Flip(m)>> \o SubSeq(w, k + 1, Len(w))
Swap(k) == [w EXCEPT ![k] = w[k + 1], ![k + 1] = w[k]]
N == Normal(w)
NormalOk == LET p == AsPath(N) IN
            /\ Legal(G, Base, p) /\ EndOf(Base, p) = Now(w) /\ Carry(Ident, p) = Carry(Ident, Singles(w))
            /\ Len(Flat(p)) = Len(Reduced(w))
            /\ ~\E i, k \in DOMAIN Reduced(w) : i < k /\ Cancels(Reduced(w), i, k)
Confluent == /\ \A k \in 0..Len(w) : \A m \in Moves(Now(SubSeq(w, 1, k))) : Normal(Insert(k, m)) = N
             /\ \A k \in 1..(Len(w) - 1) : Apart(w[k], w[k + 1]) => Legal(G, Base, Singles(Swap(k))) /\ Normal(Swap(k)) = N
Inverses == /\ Normal(w \o Rev(w)) = <<>> /\ Normal(Rev(w) \o w) = <<>>
            /\ Legal(G, Now(w), Singles(Rev(w))) /\ EndOf(Now(w), Singles(Rev(w))) = Base
            /\ Normal(Flat(AsPath(Normal(Rev(w))))) = Normal(Rev(Flat(AsPath(N))))
P == Parents(G)
Loops == w = <<>> => \A S \in SUBSET (0..(G.n - 1)) : Cardinality(S) = n =>
           /\ Legal(G, S, Singles(Downhill(P, S))) /\ Free(P, EndOf(S, Singles(Downhill(P, S)))) = {}
           /\ \A e \in G.E : e[1] \in S /\ e[2] \notin S =>
                LET x == LoopOf(P, S \ {e[1]}, e) s == EndOf((S \ {e[1]}) \cup {e[2]}, Singles(Downhill(P, (S \ {e[1]}) \cup {e[2]})))
                IN Legal(G, s, Singles(x)) /\ Free(P, EndOf(s, Singles(x))) = {}
Inv == NormalOk /\ Confluent /\ Inverses /\ Loops
===============================================================================
