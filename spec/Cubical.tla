------------------------------- MODULE Cubical -------------------------------
(* Unordered discretised configuration spaces of graphs and the discrete gradient field that a depth-first
   numbering of the vertices puts on them (Farley and Sabalka).
   A factor is <<v>> (a vertex) or <<i, j>> (an edge, i < j); a cube is a set of pairwise disjoint factors.
   A chain is a function from cubes to non-zero integers; cubes are oriented by the order of their edges. *)
EXTENDS GraphOps, Chains
Occ(c) == UNION {{f[k] : k \in DOMAIN f} : f \in c}
EdgesIn(c) == {f \in c : Len(f) = 2}
VertsIn(c) == {f[1] : f \in {g \in c : Len(g) = 1}}
DimC(c) == Cardinality(EdgesIn(c))
FactorsAt(G, v) == {<<v>>} \cup {e \in G.E : e[1] = v}          \* the factors in increasing order of their first vertex
RECURSIVE CellsFrom(_, _, _, _, _)
(* all ways to add k factors whose first vertex is at least v *)
CellsFrom(G, v, k, c, occ) ==
   IF k = 0 THEN {c}
   ELSE IF G.n - v < k THEN {}
   ELSE CellsFrom(G, v + 1, k, c, occ)
        \cup UNION {CellsFrom(G, v + 1, k - 1, c \cup {f}, occ \cup {f[i] : i \in DOMAIN f}) :
                      f \in {g \in FactorsAt(G, v) : \A i \in DOMAIN g : g[i] \notin occ}}
Cells(G, n) == CellsFrom(G, 0, n, {}, {})
OfDimC(C, d) == {c \in C : DimC(c) = d}
-----------------------------------------------------------------------------
(* boundary: the i-th edge contributes (-1)^i (terminal face - initial face) *)
RankIn(c, e) == Cardinality({f \in EdgesIn(c) : f[1] < e[1]})
Face(c, e, k) == (c \ {e}) \cup {<<e[k]>>}
Bd(c) == LET Es == EdgesIn(c) fs == {<<e, k>> : e \in Es, k \in {1, 2}} IN
         [b \in {Face(c, x[1], x[2]) : x \in fs} |->
            LET x == CHOOSE y \in fs : Face(c, y[1], y[2]) = b
            IN IF (RankIn(c, x[1]) + x[2]) % 2 = 1 THEN 1 ELSE -1]
RECURSIVE ScaleSum(_, _, _, _)
(* sum over the chain x of its coefficients times F(cube) *)
ScaleSum(F(_), x, todo, acc) == IF todo = {} THEN acc
                                ELSE LET c == CHOOSE y \in todo : TRUE
                                     IN ScaleSum(F, x, todo \ {c}, TLCEval(AddCol(acc, F(c), x[c])))
BdOf(x) == ScaleSum(Bd, x, DOMAIN x, <<>>)
-----------------------------------------------------------------------------
(* the gradient field *)
Blocked(P, c, v) == v = 0 \/ P[v] \in Occ(c)
InTree(P, e) == P[e[2]] = e[1]
Respects(P, c, e) == InTree(P, e) /\ ~(\E k \in VertsIn(c) : e[1] < k /\ k < e[2] /\ P[k] = e[1])
Active(P, c) == TLCEval({f \in c : IF Len(f) = 1 THEN ~Blocked(P, c, f[1]) ELSE Respects(P, c, f)})
LastV(f) == f[Len(f)]
LeastActive(A) == CHOOSE f \in A : \A g \in A : LastV(f) <= LastV(g)
Kind(P, c) == LET A == Active(P, c) IN
              IF A = {} THEN "critical" ELSE IF Len(LeastActive(A)) = 1 THEN "redundant" ELSE "collapsible"
Up(P, c) == LET f == LeastActive(Active(P, c)) IN (c \ {f}) \cup {<<P[f[1]], f[1]>>}          \* partner of a redundant cube
Down(P, c) == LET e == LeastActive(Active(P, c)) IN (c \ {e}) \cup {<<e[2]>>}                  \* partner of a collapsible cube
Critical(P, C) == {c \in C : Kind(P, c) = "critical"}
(* the same, without listing the other cubes: factors are added by increasing first vertex; a vertex must be blocked by what
   lies before it, and a tree edge must be disrespected by the time its end is passed *)
Settled(P, c, v) == \A e \in EdgesIn(c) : (e[2] < v /\ InTree(P, e)) => ~Respects(P, c, e)
RECURSIVE CriticalFrom(_, _, _, _, _, _)
CriticalFrom(G, P, v, k, c, occ) ==
   IF k = 0 THEN IF Settled(P, c, G.n) THEN {c} ELSE {}
   ELSE IF G.n - v < k \/ ~Settled(P, c, v) THEN {}
   ELSE CriticalFrom(G, P, v + 1, k, c, occ)
        \cup UNION {CriticalFrom(G, P, v + 1, k - 1, c \cup {f}, occ \cup {f[i] : i \in DOMAIN f}) :
                      f \in {g \in FactorsAt(G, v) : (Len(g) = 1 => (v = 0 \/ P[v] \in occ)) /\ \A i \in DOMAIN g : g[i] \notin occ}}
CriticalCells(G, P, n) == CriticalFrom(G, P, 0, n, {}, {})
Height(c) == FoldSet(LAMBDA f, t : t + LastV(f), 0, c)
RECURSIVE FlowOn(_, _, _)
(* the stable form of a chain: collapsible cubes vanish, and in each round the highest of the redundant cubes R are pushed along the field *)
FlowOn(P, x, R) ==
   IF R = {} THEN x
   ELSE LET h == TLCEval([c \in R |-> Height(c)])
            top == {c \in R : \A y \in R : h[y] <= h[c]}
            Slide(c) == LET b == TLCEval(Bd(Up(P, c))) IN [y \in DOMAIN b |-> -(b[c] * b[y])]
            y == TLCEval(ScaleSum(Slide, x, top, x))
            new == TLCEval([c \in DOMAIN y \ DOMAIN x |-> Kind(P, c)])
        IN FlowOn(P, TLCEval([c \in {z \in DOMAIN y : z \in DOMAIN x \/ new[z] # "collapsible"} |-> y[c]]),
                  TLCEval((R \cap DOMAIN y) \cup {c \in DOMAIN new : new[c] = "redundant"}))
Flow(P, x) ==
   LET kinds == TLCEval([c \in DOMAIN x |-> Kind(P, c)])
   IN FlowOn(P, TLCEval([c \in {y \in DOMAIN x : kinds[y] # "collapsible"} |-> x[c]]), {c \in DOMAIN x : kinds[c] = "redundant"})
One(c) == [y \in {c} |-> 1]
MorseBd(P, c) == Flow(P, Bd(c))
-----------------------------------------------------------------------------
(* chain complexes in bases given as sequences *)
Indexed(x, at) == [i \in {at[c] : c \in DOMAIN x} |-> x[CHOOSE c \in DOMAIN x : at[c] = i]]
PosOf(s) == [c \in {s[i] : i \in DOMAIN s} |-> CHOOSE i \in DOMAIN s : s[i] = c]
RECURSIVE MaxDim(_)
MaxDim(C) == CHOOSE d \in {DimC(c) : c \in C} : \A c \in C : DimC(c) <= d
(* homology of the complex whose cells are C with the boundary B *)
HomologyC(C, B(_)) ==
   LET m == MaxDim(C)
       bases == TLCEval([d \in 0..m |-> TLCEval(SetToSeq(OfDimC(C, d)))])
       at == TLCEval([d \in 0..m |-> [c \in OfDimC(C, d) |-> CHOOSE i \in DOMAIN bases[d] : bases[d][i] = c]])
       M == TLCEval([d \in 1..m |-> TLCEval([i \in DOMAIN bases[d] |-> TLCEval(Indexed(B(bases[d][i]), at[d - 1]))])])
   IN HomologyOf([k \in 1..(m + 1) |-> Len(bases[k - 1])], [d \in 1..m |-> ElemDivs(M[d])])
HomologyUdc(C) == HomologyC(C, Bd)
HomologyMorse(P, C) == LET B(c) == MorseBd(P, c) IN HomologyC(Critical(P, C), B)
=============================================================================
