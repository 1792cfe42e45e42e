--------------------------- MODULE SimpleGraphs_Trace ---------------------------
EXTENDS SimpleGraphs, TraceIO
VARIABLE l
Shown(G, o) == /\ o.nv = G.n /\ o.ne = Cardinality(G.E)
               /\ Len(o.edges) = Cardinality(G.E) /\ {<<o.edges[i][1], o.edges[i][2]>> : i \in DOMAIN o.edges} = G.E
               /\ \A i \in DOMAIN o.edges : Len(o.edges[i]) = 2
               /\ Len(o.adj) = G.n /\ Len(o.deg) = G.n /\ Len(o.got) = G.n
               /\ \A v \in 1..G.n : /\ Lists(o.adj[v], Nbrs(G, v - 1))
                                    /\ o.got[v] = o.adj[v]
                                    /\ o.deg[v] = Degree(G, v - 1)
               /\ o.conn = (G.n < 2 \/ Connected(G))
               /\ o.verts = [i \in 1..G.n |-> i - 1]
               /\ o.nfac = G.n + Cardinality(G.E)
RECURSIVE Row(_, _, _)
Row(G, i, j) == IF i >= j THEN "\n" ELSE (IF <<i, j>> \in G.E THEN "1" ELSE "0") \o Row(G, i + 1, j)
RECURSIVE Rows(_, _)
Rows(G, j) == IF j >= G.n THEN "" ELSE Row(G, 0, j) \o Rows(G, j + 1)
RECURSIVE Blank(_)
Blank(k) == IF k = 0 THEN "" ELSE "  " \o Blank(k - 1)
RECURSIVE DRow(_, _, _)
DRow(G, i, j) == IF j >= G.n THEN "\n" ELSE (IF <<i, j>> \in G.E THEN " +" ELSE "  ") \o DRow(G, i, j + 1)
RECURSIVE DRows(_, _)
DRows(G, i) == IF i >= G.n THEN "" ELSE Blank(i) \o (IF i < 10 THEN " " ELSE "") \o ToString(i) \o DRow(G, i, i + 1) \o DRows(G, i + 1)
MapOf(m, n) == [v \in 0..(n - 1) |-> m[v + 1]]
After(e) == TLCEval(
  CASE e.op = "new" -> Empty(e.n)
    [] e.op = "add" -> [g[e.r] EXCEPT !.E = @ \cup {<<e.u, e.v>>}]
    [] e.op = "remove" -> [g[e.r] EXCEPT !.E = @ \ {<<e.u, e.v>>}]
    [] e.op = "swap" -> IF e.u = e.v THEN g[e.r] ELSE Swapped(g[e.r], e.u, e.v)
    [] e.op = "act" -> Rename(g[e.r], MapOf(e.map, g[e.r].n))
    [] e.op = "clone" -> g[e.q]
    [] OTHER -> g[e.r])
Answer(G, e) ==
  CASE e.op = "has" -> e.ret = (<<e.u, e.v>> \in G.E)
    [] e.op = "same" -> e.ret = (G = g[e.q])
    [] e.op = "show" -> e.ret = Rows(G, 1)
    [] e.op = "debug" -> e.ret = DRows(G, 0)
    [] OTHER -> e.ret = 0
Explains(G, e) == IF e.op = "degree" /\ e.u >= G.n THEN e.out = "panic"
                  ELSE /\ e.out = "ok" /\ IF e.op = "degree" THEN e.ret = Degree(G, e.u) ELSE Answer(G, e)
                       /\ Shown(G, e.obs)
TraceInit == Init /\ l = 1
TraceNext ==
  \/ /\ l <= Len(Trace)
     /\ LET e == Trace[l] IN
        IF e.op = "reset" THEN l' = l + 1 /\ g' = [r \in Reg |-> Empty(0)] /\ bits' = bits
        ELSE LET F == After(e) IN
        IF Explains(F, e) THEN g' = [g EXCEPT ![e.r] = F] /\ UNCHANGED bits /\ l' = l + 1
        ELSE Rejected(e) /\ l' = e.nx /\ UNCHANGED vars
  \/ l = Len(Trace) + 1 /\ Finished /\ l' = l + 1 /\ UNCHANGED vars
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l>>
===============================================================================
