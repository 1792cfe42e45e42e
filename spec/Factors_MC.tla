------------------------------ MODULE Factors_MC ------------------------------
(* On every graph with a depth-first numbering and few vertices: pairwise disjoint factors are linearly ordered, a
   vertex that is not held back moves within the cells, and these notions are those of the gradient field. *)
EXTENDS Factors
CONSTANTS NV, MaxTok
VARIABLES G, n, phase
vars == <<G, n, phase>>
Init == /\ \E k \in 2..NV : G \in {[n |-> k, E |-> S] : S \in SUBSET Pairs(k)}
        /\ DepthFirst(G)
        /\ n \in 1..MaxTok /\ n <= G.n
        /\ phase = "given"
Next == phase = "given" /\ phase' = "done" /\ UNCHANGED <<G, n>>
Spec == Init /\ [][Next]_vars
P == Parents(G)
Elems_(s) == {s[i] : i \in DOMAIN s}
All == {<<v>> : v \in 0..(G.n - 1)} \cup G.E
CompareLaws == \A f, g \in All : /\ (Compare(f, g) = 0) <=> (f = g)
                                 /\ (Compare(f, g) = 2) <=> (f # g /\ ~Disjoint(f, g))
                                 /\ Compare(f, g) \in {-1, 1} => Compare(g, f) = -Compare(f, g)
Linear(c) == \A f, g, h \in c : Compare(f, g) = -1 /\ Compare(g, h) = -1 => Compare(f, h) = -1
Field(c) == \A f \in c : IF Len(f) = 1 THEN HeldBack(G, f, c) = Blocked(P, c, f[1])
                         ELSE /\ TreeEdge(G, f[1], f[2]) = InTree(P, f)
                              /\ TreeEdge(G, f[1], f[2]) => (Respects(P, c, f) <=> ~\E g \in c : Len(g) = 1 /\ g[1] # 0 /\ Overtaken(G, g, f))
Moves(c) == \A f \in c : Len(f) = 1 /\ ~HeldBack(G, f, c) =>
               /\ \A g \in c \ {f} : Disjoint(g, Towards(G, f))
               /\ TreeEdge(G, Towards(G, f)[1], f[1])
Safe(c) == \A f, g \in c : IsEdge(f) /\ Consecutive(f) /\ Len(g) = 1 /\ g[1] # 0 => ~Overtaken(G, g, f)
Listed == /\ Elems_(Edges(G)) = G.E /\ Len(Edges(G)) = Cardinality(G.E)
          /\ \A i \in 1..(Len(Edges(G)) - 1) : LET a == Edges(G)[i] b == Edges(G)[i + 1] IN a[2] < b[2] \/ (a[2] = b[2] /\ a[1] > b[1])

Inv == phase = "done" => /\ CompareLaws /\ Listed
                         /\ \A c \in Cells(G, n) : Linear(c) /\ Field(c) /\ Moves(c) /\ Safe(c)
===============================================================================
