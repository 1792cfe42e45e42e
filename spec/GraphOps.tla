------------------------------- MODULE GraphOps -------------------------------
(* Simple graphs [n |-> number of vertices, E |-> edges <<i, j>> with i < j] on the vertices 0..n-1, and the
   spanning tree that a labelling of the vertices determines: the parent of a vertex is its largest smaller
   neighbour. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Empty(n) == [n |-> n, E |-> {}]
Pairs(n) == {p \in (0..(n - 1)) \X (0..(n - 1)) : p[1] < p[2]}
Und(i, j) == IF i < j THEN <<i, j>> ELSE <<j, i>>
Has(G, i, j) == Und(i, j) \in G.E
Nbrs(G, v) == {w \in 0..(G.n - 1) : w # v /\ Has(G, v, w)}
Degree(G, v) == Cardinality(Nbrs(G, v))
Rename(G, f) == [G EXCEPT !.E = {Und(f[e[1]], f[e[2]]) : e \in G.E}]
Swapped(G, i, j) == Rename(G, [v \in 0..(G.n - 1) |-> IF v = i THEN j ELSE IF v = j THEN i ELSE v])
RECURSIVE Reach(_, _, _)
Reach(G, done, todo) == IF todo = {} THEN done
                        ELSE LET d == TLCEval(done \cup todo) IN Reach(G, d, TLCEval((UNION {Nbrs(G, v) : v \in todo}) \ d))
Connected(G) == Reach(G, {}, {0}) = 0..(G.n - 1)
ConnectedWithout(G, b) == G.n <= 2 \/ LET v == CHOOSE w \in 0..(G.n - 1) : w # b
                                     IN Reach(G, {b}, {v}) = 0..(G.n - 1)
-----------------------------------------------------------------------------
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
Smaller(G, j) == {i \in 0..(j - 1) : <<i, j>> \in G.E}
Rooted(G) == \A j \in 1..(G.n - 1) : Smaller(G, j) # {}
Parents(G) == TLCEval([j \in 1..(G.n - 1) |-> MaxOf(Smaller(G, j))])
RECURSIVE Anc(_, _)
Anc(P, j) == IF j = 0 THEN {0} ELSE {j} \cup Anc(P, P[j])          \* the vertex itself and its ancestors
Children(P, i) == {j \in DOMAIN P : P[j] = i}
(* labelled in the order of a depth-first search from 0 *)
Preorder(G, P) == \A j \in 2..(G.n - 1) : P[j] \in Anc(P, j - 1)
(* edges outside the tree join a vertex to one of its ancestors *)
Ancestral(G, P) == LET A == TLCEval([j \in 0..(G.n - 1) |-> Anc(P, j)]) IN \A e \in G.E : e[1] \in A[e[2]]
DepthFirst(G) == Rooted(G) /\ LET P == Parents(G) IN Preorder(G, P) /\ Ancestral(G, P)
=============================================================================
