----------------------------- MODULE Cubical_Trace -----------------------------
EXTENDS Cubical, Multigraphs, TraceIO
VARIABLE l
SetOf(s) == {s[i] : i \in DOMAIN s}
Cube(c) == {c[i] : i \in DOMAIN c}
ListOk(cs, S) == Len(cs) = Cardinality(S) /\ {Cube(cs[i]) : i \in DOMAIN cs} = S /\ \A i \in DOMAIN cs : Len(cs[i]) = Cardinality(Cube(cs[i]))
ChainOk(x, f) == /\ Len(x) = Cardinality(DOMAIN f)
                 /\ \A i \in DOMAIN x : LET c == Cube(x[i][2]) IN c \in DOMAIN f /\ f[c] = x[i][1]
                 /\ \A i, k \in DOMAIN x : i # k => Cube(x[i][2]) # Cube(x[k][2])
SparseCols(x) == LET at == [j \in 1..x.cols |-> {k \in DOMAIN x.nz : x.nz[k][2] = j - 1}] IN
   [j \in 1..x.cols |-> [i \in {x.nz[k][1] + 1 : k \in at[j]} |-> LET k == CHOOSE k \in at[j] : x.nz[k][1] + 1 = i IN x.nz[k][3]]]
GraphOf(g) == [n |-> g.n, E |-> {<<g.edges[i][1], g.edges[i][2]>> : i \in DOMAIN g.edges}]
(* the graph on which the tokens move is the subdivision, in some depth-first numbering *)
GraphOk(e, G) == LET A == Arcs(e.pairs, e.n) vs == e.ret.g.verts IN
   /\ Cardinality(G.E) = Len(e.ret.g.edges) /\ \A x \in G.E : 0 <= x[1] /\ x[1] < x[2] /\ x[2] < G.n
   /\ LET V == TLCEval(SubVertices(A, e.pairs)) IN G.n = Cardinality(V) /\ Len(vs) = G.n /\ {vs[i] : i \in DOMAIN vs} = V
   /\ {{vs[x[1] + 1], vs[x[2] + 1]} : x \in G.E} = SubEdges(A)
   /\ DepthFirst(G)
(* the recorded complex: cells[d+1] is the set of cells of dimension d and B their boundary *)
ComplexOk(cs, cells, B(_)) ==
   /\ Len(cs) = Len(cells)
   /\ \A k \in DOMAIN cs : /\ ListOk(cs[k].basis, cells[k])
                           /\ cs[k].cols = Cardinality(cells[k])
                           /\ cs[k].rows = IF k = 1 THEN 1 ELSE Cardinality(cells[k - 1])
                           /\ Len(cs[k].nz) = Cardinality({<<cs[k].nz[i][1], cs[k].nz[i][2]>> : i \in DOMAIN cs[k].nz})
   /\ cs[1].nz = <<>>
   /\ \A k \in 2..Len(cs) :
        LET M == TLCEval(SparseCols(cs[k]))
            at == TLCEval([i \in DOMAIN cs[k - 1].basis |-> TLCEval(Cube(cs[k - 1].basis[i]))])
        IN \A j \in DOMAIN M : LET b == TLCEval(B(Cube(cs[k].basis[j]))) IN
              /\ Cardinality(DOMAIN M[j]) = Cardinality(DOMAIN b)
              /\ \A i \in DOMAIN M[j] : at[i] \in DOMAIN b /\ b[at[i]] = M[j][i]
AsHom(ret) == [k \in DOMAIN ret |-> [free |-> ret[k][1], tors |-> ret[k][2]]]
(* homology of the recorded matrices, once they are known to be right *)
HomOf(cs) == LET d == TLCEval([k \in 1..(Len(cs) - 1) |-> ElemDivs(SparseCols(cs[k + 1]))])
             IN HomologyOf([k \in DOMAIN cs |-> cs[k].cols], d)
Square(cs) == \A k \in 2..(Len(cs) - 1) : ComposeZero(SparseCols(cs[k]), SparseCols(cs[k + 1]))
ByDim(C) == LET D == TLCEval([c \in C |-> DimC(c)]) m == MaxOf({D[c] : c \in C})
            IN TLCEval([k \in 1..(m + 1) |-> {c \in C : D[c] = k - 1}])
UdcOf(e) ==
   LET G == TLCEval(GraphOf(e.ret.g))
       C == TLCEval(Cells(G, e.n))
       cells == ByDim(C)
   IN /\ GraphOk(e, G)
      /\ e.ret.cells = Cardinality(C)
      /\ Len(e.ret.listed) = Len(cells) /\ \A k \in DOMAIN cells : ListOk(e.ret.listed[k], cells[k])
      /\ ComplexOk(e.ret.chains, cells, Bd) /\ Square(e.ret.chains)
      /\ IF e.hom THEN AsHom(e.ret.hom) = Trimmed(HomOf(e.ret.chains)) ELSE e.ret.hom = <<>>
MorseOf(e) ==
   LET G == TLCEval(GraphOf(e.ret.g))
       T == Parents(G)
       C == TLCEval({c \in CriticalCells(G, T, e.n) : e.up < 0 \/ DimC(c) <= e.up})
       cells == ByDim(C)
       B(c) == MorseBd(T, c)
   IN /\ GraphOk(e, G)
      /\ Len(e.ret.listed) = Len(cells) /\ \A k \in DOMAIN cells : ListOk(e.ret.listed[k], cells[k])
      /\ Len(e.ret.cells) = e.n + 2
      /\ \A k \in DOMAIN e.ret.cells : IF k \in DOMAIN cells THEN ListOk(e.ret.cells[k], cells[k]) ELSE e.ret.cells[k] = <<>>
      /\ ComplexOk(e.ret.chains, cells, B) /\ Square(e.ret.chains)
      /\ IF e.hom THEN LET h == HomOf(e.ret.chains) IN
                          /\ AsHom(e.ret.hom) = Trimmed(h)
                          /\ (e.full => AsHom(e.ret.hom) = Trimmed(HomologyUdc(TLCEval(Cells(G, e.n)))))     \* faithful
                  ELSE e.ret.hom = <<>>
RECURSIVE Joined(_, _)
Joined(s, i) == IF i > Len(s) THEN "" ELSE s[i] \o (IF i < Len(s) THEN ", " ELSE "") \o Joined(s, i + 1)
ShownF(f) == IF Len(f) = 1 THEN ToString(f[1]) ELSE "[" \o ToString(f[1]) \o " " \o ToString(f[2]) \o "]"
GivenG(e) == TLCEval([n |-> e.nv, E |-> {<<e.edges[i][1], e.edges[i][2]>> : i \in DOMAIN e.edges}])
Answer(e) ==
  CASE e.op = "udc" -> UdcOf(e)
    [] e.op = "morse" -> MorseOf(e)
    [] e.op = "faces" -> ChainOk(e.ret, Bd(Cube(e.c)))
    [] e.op = "flow" -> ChainOk(e.ret, Flow(Parents(GivenG(e)), One(Cube(e.c))))
    [] e.op = "ends" -> /\ Len(e.ret) = 2
                        /\ LET x == CHOOSE f \in Cube(e.c) : Len(f) = 2 IN
                           \A k \in {1, 2} : Cube(e.ret[k]) = Face(Cube(e.c), x, k) /\ Len(e.ret[k]) = Len(e.c)
    [] e.op = "text" -> e.ret = "{" \o Joined([i \in DOMAIN e.c |-> ShownF(e.c[i])], 1) \o "}"
Refuses(e) == e.op = "ends" /\ DimC(Cube(e.c)) # 1
Explains(e) == /\ e.obs = 0
               /\ IF Refuses(e) THEN e.out = "panic" ELSE e.out = "ok" /\ Answer(e)
TraceInit == l = 1
TraceNext ==
  \/ /\ l <= Len(Trace)
     /\ LET e == Trace[l] IN
        IF e.op = "reset" THEN l' = l + 1
        ELSE IF Explains(e) THEN l' = l + 1
        ELSE Rejected(e) /\ l' = e.nx
  \/ l = Len(Trace) + 1 /\ Finished /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
===============================================================================
