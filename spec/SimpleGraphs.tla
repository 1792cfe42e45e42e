----------------------------- MODULE SimpleGraphs -----------------------------
(* Undirected simple graphs on the vertices 0..n-1 under histories of adding, removing, swapping and
   permuting. An edge is a pair <<i, j>> with i < j. What a graph is: its set of edges. How the code keeps it:
   the positions of a triangular bit array; the second is shown to refine the first, and the algorithms
   of the code over it (swap by removing and adding, iteration, connectivity by search) to mean the first. *)
EXTENDS GraphOps
CONSTANT Reg
VARIABLES g, bits
vars == <<g, bits>>
-----------------------------------------------------------------------------
(* the triangular array *)
Pos(i, j) == ((j * (j - 1)) \div 2) + i
BitsOf(G) == {Pos(e[1], e[2]) : e \in G.E}
BHas(B, i, j) == (IF i < j THEN Pos(i, j) ELSE Pos(j, i)) \in B
BNbrs(n, B, v) == {w \in 0..(n - 1) : w # v /\ BHas(B, v, w)}
At(i, j) == IF i < j THEN Pos(i, j) ELSE Pos(j, i)
\* swap as the code does it: forget everything at i and j, give each the other's neighbours
BSwap(n, B, i, j) ==
   LET ni == BNbrs(n, B, i) \ {j} nj == BNbrs(n, B, j) \ {i}
       rest == B \ ({At(i, w) : w \in BNbrs(n, B, i)} \cup {At(j, w) : w \in BNbrs(n, B, j)})
   IN rest \cup {At(j, w) : w \in ni} \cup {At(i, w) : w \in nj} \cup (IF BHas(B, i, j) THEN {At(i, j)} ELSE {})
\* the edge iterator: pairs (i,i+1).. in the order the code visits them: j grows, i falls from j-1 to 0
RECURSIVE Walk(_, _, _, _, _)
Walk(n, B, i, j, acc) == IF j >= n THEN acc
                         ELSE LET a == IF BHas(B, i, j) THEN Append(acc, <<i, j>>) ELSE acc
                              IN IF i = 0 THEN Walk(n, B, j, j + 1, a) ELSE Walk(n, B, i - 1, j, a)
EdgeOrder(n, B) == Walk(n, B, 0, 1, <<>>)
\* connectivity: vertices seen start from the neighbours of 0 (not from 0 itself)
RECURSIVE Search(_, _, _, _)
Search(n, B, seen, stack) ==
   IF Cardinality(seen) = n THEN TRUE
   ELSE IF stack = <<>> THEN FALSE
   ELSE LET v == stack[Len(stack)] new == BNbrs(n, B, v) \ seen
            RECURSIVE Push(_, _)
            Push(S, s) == IF S = {} THEN s ELSE LET w == CHOOSE x \in S : TRUE IN Push(S \ {w}, Append(s, w))
        IN Search(n, B, seen \cup new, Push(new, SubSeq(stack, 1, Len(stack) - 1)))
BConnected(n, B) == LET s == BNbrs(n, B, 0)
                        RECURSIVE Push(_, _)
                        Push(S, q) == IF S = {} THEN q ELSE LET w == CHOOSE x \in S : TRUE IN Push(S \ {w}, Append(q, w))
                    IN Search(n, B, s, Push(s, <<>>))
-----------------------------------------------------------------------------
CONSTANT NV
Init == g = [r \in Reg |-> Empty(NV)] /\ bits = [r \in Reg |-> {}]
Add(r, i, j) == /\ g' = [g EXCEPT ![r].E = @ \cup {<<i, j>>}]
                /\ bits' = [bits EXCEPT ![r] = @ \cup {Pos(i, j)}]
Remove(r, i, j) == /\ g' = [g EXCEPT ![r].E = @ \ {<<i, j>>}]
                   /\ bits' = [bits EXCEPT ![r] = @ \ {Pos(i, j)}]
Swap(r, i, j) == /\ g' = [g EXCEPT ![r] = Swapped(@, i, j)]
                 /\ bits' = [bits EXCEPT ![r] = BSwap(NV, @, i, j)]
\* a permutation acts through the transpositions it is a product of; here a three-cycle i -> j -> k -> i
Cycle(r, i, j, k) == /\ g' = [g EXCEPT ![r] = Rename(@, [v \in 0..(NV - 1) |-> IF v = i THEN j ELSE IF v = j THEN k ELSE IF v = k THEN i ELSE v])]
                     /\ bits' = [bits EXCEPT ![r] = BSwap(NV, BSwap(NV, @, IF j < k THEN j ELSE k, IF j < k THEN k ELSE j), IF i < j THEN i ELSE j, IF i < j THEN j ELSE i)]
Next == \E r \in Reg : \/ \E p \in Pairs(NV) : Add(r, p[1], p[2]) \/ Remove(r, p[1], p[2]) \/ Swap(r, p[1], p[2])
                       \/ \E i, j, k \in 0..(NV - 1) : Cardinality({i, j, k}) = 3 /\ Cycle(r, i, j, k)
Spec == Init /\ [][Next]_vars
Refines == \A r \in Reg : bits[r] = BitsOf(g[r])
Triangular == \A p, q \in Pairs(NV) : Pos(p[1], p[2]) = Pos(q[1], q[2]) => p = q
Iterates == \A r \in Reg : LET s == EdgeOrder(NV, bits[r]) IN
               /\ Len(s) = Cardinality(g[r].E) /\ {s[i] : i \in DOMAIN s} = g[r].E
Searches == \A r \in Reg : NV > 1 => (BConnected(NV, bits[r]) = Connected(g[r]))
Handshake == \A r \in Reg : LET RECURSIVE S(_)
                                S(v) == IF v < 0 THEN 0 ELSE Degree(g[r], v) + S(v - 1)
                            IN S(NV - 1) = 2 * Cardinality(g[r].E)
=============================================================================
