---------------------------- MODULE Factors_Trace ----------------------------
EXTENDS Factors, TraceIO
VARIABLE l
GraphIn(e) == TLCEval([n |-> e.nv, E |-> {<<e.edges[i][1], e.edges[i][2]>> : i \in DOMAIN e.edges}])
SetOf(s) == {s[i] : i \in DOMAIN s}
Edge(e) == Len(e.f) = 2
(* pairwise disjoint factors in order *)
RECURSIVE SortedBy(_)
SortedBy(S) == IF S = {} THEN <<>> ELSE LET f == CHOOSE f \in S : \A g \in S : f[1] <= g[1] IN <<f>> \o SortedBy(S \ {f})
(* questions that have no answer *)
Refuses(e) == LET G == GraphIn(e) IN
   CASE e.q \in {"edge", "terminal", "initial", "consecutive"} -> ~Edge(e)
     [] e.q = "vertex" -> Edge(e)
     [] e.q = "tree" -> ~e.chosen
     [] e.q = "intree" -> Edge(e) /\ ~e.chosen
     [] e.q = "flow" -> ~e.chosen \/ ~Movable(G, e.f)
     [] e.q = "held" -> Edge(e) \/ (e.f[1] # 0 /\ (~e.chosen \/ ~Movable(G, e.f)))
     \* only vertices between the ends are asked where they move
     [] e.q = "overtaken" -> \/ Edge(e) \/ Len(e.g) # 2
                             \/ (e.g[1] < e.f[1] /\ e.f[1] < e.g[2] /\ (~e.chosen \/ ~Movable(G, e.f)))
     [] OTHER -> FALSE
Answer(e) == LET G == GraphIn(e) IN
   CASE e.q = "disjoint" -> Disjoint(e.f, e.g)
     [] e.q = "compare" -> Compare(e.f, e.g)
     [] e.q = "kind" -> IF Edge(e) THEN <<TRUE, FALSE>> ELSE <<FALSE, TRUE>>
     [] e.q = "edge" -> e.f
     [] e.q = "vertex" -> e.f[1]
     [] e.q = "terminal" -> <<e.f[1]>>
     [] e.q = "initial" -> <<e.f[2]>>
     [] e.q = "order" -> e.f[1]
     [] e.q = "consecutive" -> Consecutive(e.f)
     [] e.q = "tree" -> [i \in DOMAIN e.fs |-> TreeEdge(G, e.fs[i][1], e.fs[i][2])]
     [] e.q = "intree" -> IF Edge(e) THEN TreeEdge(G, e.f[1], e.f[2]) ELSE TRUE
     [] e.q = "flow" -> Towards(G, e.f)
     [] e.q = "held" -> HeldBack(G, e.f, SetOf(e.fs))
     [] e.q = "overtaken" -> Overtaken(G, e.f, e.g)
     [] e.q = "sorted" -> SortedBy(SetOf(e.fs))
     [] e.q = "lists" -> [v |-> Vertices(G), e |-> Edges(G), all |-> Vertices(G) \o Edges(G)]
(* the graphs that come with the library *)
Given(g) == TLCEval([n |-> g.n, E |-> SetOf(g.edges)])
FixedOk(e) == LET G == Given(e.ret) IN
   /\ Cardinality(G.E) = Len(e.ret.edges) /\ \A x \in G.E : 0 <= x[1] /\ x[1] < x[2] /\ x[2] < G.n
   /\ e.ret.chosen = TRUE /\ DepthFirst(G) /\ Enough(G, 4)
   /\ IF e.q = "complete" THEN G.n = 25 /\ CompleteOn(G, 5) ELSE G.n = 32 /\ CubeGraph(G)
Explains(e) == /\ e.obs = 0
               /\ IF e.op = "fixed" THEN e.out = "ok" /\ FixedOk(e)
                  ELSE IF Refuses(e) THEN e.out = "panic" ELSE e.out = "ok" /\ e.ret = Answer(e)
TraceInit == l = 1
TraceNext ==
  \/ /\ l <= Len(Trace)
     /\ LET e == Trace[l] IN
        IF e.op = "reset" THEN l' = l + 1
        ELSE IF Explains(e) THEN l' = l + 1
        ELSE Rejected(e) /\ l' = e.nx
  \/ l = Len(Trace) + 1 /\ Finished /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
==============================================================================
