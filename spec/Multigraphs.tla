----------------------------- MODULE Multigraphs -----------------------------
(* Multigraphs given as a list of pairs of vertex names, their counts, their subdivision for n tokens, and
   weighted graphs with their Laplacian. Vertices are numbered in the order in which they are first named. *)
EXTENDS GraphOps
RECURSIVE NamesOf(_, _, _)
Note(s, x) == IF \E i \in DOMAIN s : s[i] = x THEN s ELSE Append(s, x)
NamesOf(ps, i, acc) == IF i > Len(ps) THEN acc ELSE NamesOf(ps, i + 1, Note(Note(acc, ps[i][1]), ps[i][2]))
Names(ps) == NamesOf(ps, 1, <<>>)
NumberOf(ns, x) == CHOOSE i \in DOMAIN ns : ns[i] = x
(* number of pairs that join the vertices number i and j *)
Joins(ps, ns, i, j) == Cardinality({k \in DOMAIN ps : {ps[k][1], ps[k][2]} = {ns[i], ns[j]}})
Mult(ps) == LET ns == Names(ps) IN TLCEval([ij \in {x \in (DOMAIN ns) \X (DOMAIN ns) : x[1] <= x[2]} |-> Joins(ps, ns, ij[1], ij[2])])
RECURSIVE SumF(_, _)
SumF(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN f[x] + SumF(f, S \ {x})
Loops(ps) == Cardinality({k \in DOMAIN ps : ps[k][1] = ps[k][2]})
NonLoops(ps) == Len(ps) - Loops(ps)
Distinct2(ps) == Cardinality({{ps[k][1], ps[k][2]} : k \in {k \in DOMAIN ps : ps[k][1] # ps[k][2]}})
-----------------------------------------------------------------------------
(* subdivision: an edge gets mids(n) new vertices, a loop loops(n) *)
Tokens(n) == IF n < 2 THEN 2 ELSE n
MidsOf(n, loop) == IF loop THEN Tokens(n) ELSE IF Tokens(n) - 2 > 1 THEN Tokens(n) - 2 ELSE 1
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
RatStr(a, b) == IF a = 0 THEN "0"
                ELSE LET k == Gcd(IF a < 0 THEN 0 - a ELSE a, b) IN
                     IF k = b THEN ToString(IF a < 0 THEN 0 - ((0 - a) \div b) ELSE a \div b)
                     ELSE (IF a < 0 THEN "-" ELSE "") \o ToString((IF a < 0 THEN 0 - a ELSE a) \div k) \o "/" \o ToString(b \div k)
Ess(x) == [ess |-> TRUE, a |-> x, b |-> "", k |-> 0, pos |-> ""]
Mid(x, y, k, l, d) == [ess |-> FALSE, a |-> x, b |-> y, k |-> k, pos |-> RatStr(l, d)]
(* the k-th arc from vertex i to vertex j as the sequence of its vertices *)
Arc(ns, i, j, k, n) == LET m == MidsOf(n, i = j) IN
   <<Ess(ns[i])>> \o [l \in 1..m |-> Mid(ns[i], ns[j], k, l, m + 1)] \o <<Ess(ns[j])>>
Arcs(ps, n) == LET ns == Names(ps) f == Mult(ps) IN
   TLCEval(UNION {{TLCEval(Arc(ns, x[1], x[2], k, n)) : k \in 0..(f[x] - 1)} : x \in DOMAIN f})
SubVertices(A, ps) == {Ess(x) : x \in {Names(ps)[i] : i \in DOMAIN Names(ps)}} \cup UNION {{c[i] : i \in DOMAIN c} : c \in A}
SubEdges(A) == UNION {{{c[i], c[i + 1]} : i \in 1..(Len(c) - 1)} : c \in A}
-----------------------------------------------------------------------------
(* weighted graphs: the last weight given to a pair counts *)
WeightAt(es, x, y) == LET K == {k \in DOMAIN es : {es[k][1], es[k][2]} = {x, y}} IN IF x = y \/ K = {} THEN 0 ELSE es[MaxOf(K)][3]
WMatrix(es) == LET ns == Names(es) IN TLCEval([i \in DOMAIN ns |-> [k \in DOMAIN ns |-> WeightAt(es, ns[i], ns[k])]])
RowSum(W, i) == SumF(W[i], DOMAIN W[i])
Laplacian(W) == TLCEval([i \in DOMAIN W |-> [k \in DOMAIN W |-> IF i = k THEN RowSum(W, i) ELSE 0 - W[i][k]]])
=============================================================================
