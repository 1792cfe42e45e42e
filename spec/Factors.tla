------------------------------- MODULE Factors -------------------------------
(* The factors of the cubes of a configuration space - the vertices <<v>> and the closed edges <<i, j>> of a
   numbered graph - and how they relate: disjointness, the order among disjoint ones, the edge towards the base
   point, and what holds a vertex back from moving along it.                                                  *)
EXTENDS Cubical
Span(f) == {f[k] : k \in DOMAIN f}
Disjoint(f, g) == Span(f) \cap Span(g) = {}
IsEdge(f) == Len(f) = 2
(* how f compares with g: -1, 0, 1, or 2 for not at all *)
Compare(f, g) == IF f = g THEN 0 ELSE IF ~Disjoint(f, g) THEN 2 ELSE IF f[1] < g[1] THEN -1 ELSE 1
(* the edge along which a vertex moves towards the base point *)
Below(G, v) == Smaller(G, v)
Movable(G, f) == Len(f) = 1 /\ f[1] # 0 /\ Below(G, f[1]) # {}
Towards(G, f) == <<MaxOf(Below(G, f[1])), f[1]>>
TreeEdge(G, i, j) == <<i, j>> \in G.E /\ i = MaxOf(Below(G, j))
HeldBack(G, f, fs) == f[1] = 0 \/ \E g \in fs : Towards(G, f)[1] \in Span(g)
Consecutive(f) == f[2] = f[1] + 1
(* the vertex f lies between the ends of the edge g and moves to the same vertex *)
Overtaken(G, f, g) == g[1] < f[1] /\ f[1] < g[2] /\ Towards(G, f)[1] = g[1]
Vertices(G) == [i \in 1..G.n |-> <<i - 1>>]
(* the edges by their second end, and then downwards from the first end *)
RECURSIVE Down_(_, _, _)
Down_(G, i, j) == IF i < 0 THEN <<>> ELSE (IF <<i, j>> \in G.E THEN <<<<i, j>>>> ELSE <<>>) \o Down_(G, i - 1, j)
RECURSIVE EdgesUpTo(_, _)
EdgesUpTo(G, j) == IF j <= 0 THEN <<>> ELSE EdgesUpTo(G, j - 1) \o Down_(G, j - 1, j)
Edges(G) == EdgesUpTo(G, G.n - 1)
-----------------------------------------------------------------------------
(* graphs up to the vertices of degree two: the arcs between the other vertices *)
Joints(G) == {v \in 0..(G.n - 1) : Degree(G, v) # 2}
RECURSIVE Along(_, _, _, _)
Along(G, from, v, len) == IF Degree(G, v) # 2 THEN <<v, len>>
                          ELSE Along(G, v, CHOOSE w \in Nbrs(G, v) : w # from, len + 1)
(* {<<joint, first step, joint at the other end, number of edges>>} *)
ArcEnds(G) == UNION {{LET e == Along(G, v, w, 1) IN <<v, w, e[1], e[2]>> : w \in Nbrs(G, v)} : v \in Joints(G)}
Enough(G, n) == \A a \in ArcEnds(G) : a[4] >= n - 1
Near(G, v) == {a[3] : a \in {b \in ArcEnds(G) : b[1] = v}}
Simple(G) == \A v \in Joints(G) : v \notin Near(G, v) /\ Cardinality(Near(G, v)) = Degree(G, v)
CompleteOn(G, k) == Cardinality(Joints(G)) = k /\ Simple(G) /\ \A v \in Joints(G) : Near(G, v) = Joints(G) \ {v}
(* the edges of a cube *)
CubeGraph(G) == LET J == Joints(G) N == TLCEval([v \in J |-> Near(G, v)]) IN
   /\ Cardinality(J) = 8 /\ Simple(G) /\ \A v \in J : Degree(G, v) = 3
   /\ \A v \in J : \A w \in N[v] : N[v] \cap N[w] = {}
   /\ \A v, w \in J : v # w => Cardinality(N[v] \cap N[w]) \in {0, 2}
==============================================================================
