------------------------------- MODULE Spanning -------------------------------
(* How the code labels a connected graph: bring a vertex to the front that does not separate the graph, then
   search depth first by swapping labels, then move branches of the tree. g0 is the graph as given, G the
   graph as labelled now, p the labelling. *)
EXTENDS GraphOps
CONSTANT NV
VARIABLES g0, G, p, pc, j
vars == <<g0, G, p, pc, j>>
V == 0..(NV - 1)
Id == [v \in V |-> v]
Init == /\ g0 \in {H \in [n : {NV}, E : SUBSET Pairs(NV)] : Connected(H)}
        /\ G = g0 /\ p = Id /\ pc = "base" /\ j = 1
Tau(a, b) == [v \in V |-> IF v = a THEN b ELSE IF v = b THEN a ELSE v]
Do(f) == G' = Rename(G, f) /\ p' = [v \in V |-> f[p[v]]]
NonCut(b) == ConnectedWithout(G, b)
Base == pc = "base" /\ \E b \in V : NonCut(b) /\ Do(Tau(0, b)) /\ pc' = "search" /\ j' = 1 /\ UNCHANGED g0
(* from j - 1 downwards: an i that is joined to j already, or to some k > j, which then becomes j *)
Stop(i) == <<i, j>> \in G.E \/ \E k \in (j + 1)..(NV - 1) : <<i, k>> \in G.E
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
Search == /\ pc = "search" /\ j < NV
          /\ LET I == {i \in 0..(j - 1) : Stop(i)} IN
             IF I = {} THEN UNCHANGED <<G, p>>
             ELSE LET i == MaxOf(I) IN
                  IF <<i, j>> \in G.E THEN UNCHANGED <<G, p>>
                  ELSE Do(Tau(j, MinOf({k \in (j + 1)..(NV - 1) : <<i, k>> \in G.E})))
          /\ j' = j + 1 /\ UNCHANGED <<g0, pc>>
Found == pc = "search" /\ j = NV /\ pc' = "branch" /\ j' = 0 /\ UNCHANGED <<g0, G, p>>
(* exchanging two neighbouring branches [a, b) and [b, c) at the vertex j *)
Block(a, b, c) == [v \in V |-> IF v \in a..(b - 1) THEN v + (c - b) ELSE IF v \in b..(c - 1) THEN v - (b - a) ELSE v]
EndOf(P, v) == MaxOf({w \in V : v \in Anc(P, w)}) + 1
Branch == /\ pc = "branch" /\ j < NV
          /\ \/ \E a, b \in Children(Parents(G), j) :
                  /\ EndOf(Parents(G), a) = b /\ Do(Block(a, b, EndOf(Parents(G), b))) /\ j' = j
             \/ j' = j + 1 /\ UNCHANGED <<G, p>>
          /\ UNCHANGED <<g0, pc>>
Done == pc = "branch" /\ j = NV /\ pc' = "done" /\ UNCHANGED <<g0, G, p, j>>
Next == Base \/ Search \/ Found \/ Branch \/ Done
Spec == Init /\ [][Next]_vars
Same == G = Rename(g0, p) /\ {p[v] : v \in V} = V
\* while searching, the first j labels are a depth-first tree already
Prefix(k) == [n |-> k, E |-> {e \in G.E : e[2] < k}]
Partial == pc = "search" => Rooted(Prefix(j)) /\ Preorder(Prefix(j), Parents(Prefix(j)))
Tree == pc \in {"branch", "done"} => DepthFirst(G)
BasePoint == pc # "base" => ConnectedWithout(G, 0)
\* the base point has one branch only
Leaf == pc \in {"branch", "done"} /\ NV > 1 => Children(Parents(G), 0) = {1}
=============================================================================
