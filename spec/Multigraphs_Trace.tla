--------------------------- MODULE Multigraphs_Trace ---------------------------
EXTENDS Multigraphs, TraceIO
VARIABLE l
CountsOf(e) == e.ret = [nv |-> Len(Names(e.pairs)), nl |-> Loops(e.pairs), ne |-> NonLoops(e.pairs), nu |-> Distinct2(e.pairs)]
Shown(v) == IF v.ess THEN v.a ELSE "(" \o v.pos \o ")(" \o v.a \o ", " \o v.b \o ")" \o (IF v.k = 0 THEN "" ELSE ToString(v.k))
RECURSIVE Join(_, _)
Join(s, i) == IF i > Len(s) THEN "" ELSE s[i] \o (IF i < Len(s) THEN ", " ELSE "") \o Join(s, i + 1)
SubOf(e) ==
   LET ret == e.ret
       n == IF e.plain THEN 2 ELSE e.n
       A == Arcs(e.pairs, n)
       V == TLCEval(SubVertices(A, e.pairs))
       vs == ret.verts
       at(i) == vs[i + 1]
       G == TLCEval([n |-> Len(vs), E |-> {<<ret.edges[i][1], ret.edges[i][2]>> : i \in DOMAIN ret.edges}])
       P == Parents(G)
   IN \* the vertices and the edges are those of the subdivision, under some numbering
      /\ Len(vs) = Cardinality(V) /\ {vs[i] : i \in DOMAIN vs} = V
      /\ ret.nv = Len(vs) /\ ret.rawnv = Len(vs) /\ ret.ness = Len(Names(e.pairs))
      /\ ret.ne = Len(ret.edges) /\ Cardinality(G.E) = Len(ret.edges)
      /\ \A x \in G.E : 0 <= x[1] /\ x[1] < x[2] /\ x[2] < G.n
      /\ {{at(x[1]), at(x[2])} : x \in G.E} = SubEdges(A)
      /\ ret.shown = [i \in DOMAIN vs |-> Shown(vs[i])]
      /\ ret.text = "vertices: " \o Join(ret.shown, 1) \o "\nedges: "
                       \o Join([i \in DOMAIN ret.edges |-> "[" \o ret.shown[ret.edges[i][1] + 1] \o ", " \o ret.shown[ret.edges[i][2] + 1] \o "]"], 1) \o "\n"
      \* the numbering is that of a depth-first search from a vertex that does not separate the graph
      /\ ret.chosen = TRUE
      /\ Rooted(G) /\ Preorder(G, P) /\ Ancestral(G, P) /\ ConnectedWithout(G, 0)
      /\ ret.tree = [i \in DOMAIN ret.edges |-> P[ret.edges[i][2]] = ret.edges[i][1]]
      /\ ret.tdeg = [i \in 1..G.n |-> Cardinality(Children(P, i - 1)) + (IF i = 1 THEN 0 ELSE 1)]
      /\ ret.up = [i \in 1..(G.n - 1) |-> <<P[i], i>>]
PlaceOf(e) ==
   LET A == Arcs(e.pairs, e.n)
       at == [x \in {e.at[k][1] : k \in DOMAIN e.at} |-> LET k == CHOOSE k \in DOMAIN e.at : e.at[k][1] = x IN <<e.at[k][2], e.at[k][3]>>]
       V == TLCEval(SubVertices(A, e.pairs))
       Between(c, i, t) == (1000 * (at[c[1].a][t] * (Len(c) - i) + at[c[Len(c)].a][t] * (i - 1))) \div (Len(c) - 1)
       place(v, t) == LET c == CHOOSE c \in A : \E i \in DOMAIN c : c[i] = v
                          i == CHOOSE i \in DOMAIN c : c[i] = v
                      IN Between(c, i, t)
   IN /\ e.ret.n = Cardinality(V) /\ Len(e.ret.at) = Cardinality(V)
      /\ {e.ret.at[k][1] : k \in DOMAIN e.ret.at} = V
      /\ \A k \in DOMAIN e.ret.at : \A t \in 1..2 : e.ret.at[k][t + 1] = place(e.ret.at[k][1], t)
      /\ \A k \in DOMAIN e.ret.at : Len(e.ret.at[k]) = 3
WeightsOf(e) ==
   LET es == e.es ns == Names(es) W == WMatrix(es) L == Laplacian(W)
       Show(M) == [i \in DOMAIN M |-> [k \in DOMAIN M |-> IF e.rat THEN RatStr(M[i][k], 7) ELSE M[i][k]]]
       n == Len(ns)
   IN IF \E k \in DOMAIN es : es[k][1] = es[k][2] THEN e.out = "panic"
      ELSE /\ e.out = "ok" /\ e.ret.nv = n /\ e.ret.names = ns /\ e.ret.size = <<n, n, n, n>>
           /\ e.ret.w = Show(W) /\ e.ret.l = Show(L)
Explains(e) == /\ e.obs = 0
               /\ CASE e.op = "graph" -> e.out = "ok" /\ CountsOf(e)
                    [] e.op = "sub" -> e.out = "ok" /\ SubOf(e)
                    [] e.op = "place" -> e.out = "ok" /\ PlaceOf(e)
                    [] e.op = "weights" -> WeightsOf(e)
TraceInit == l = 1
TraceNext ==
  \/ /\ l <= Len(Trace)
     /\ LET e == Trace[l] IN
        IF e.op = "reset" THEN l' = l + 1
        ELSE IF Explains(e) THEN l' = l + 1
        ELSE Rejected(e) /\ l' = e.nx
  \/ l = Len(Trace) + 1 /\ Finished /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
===============================================================================
