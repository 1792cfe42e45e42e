---------------------------- MODULE Simplicial_Trace ----------------------------
EXTENDS Simplicial, TraceIO
VARIABLE l
SetOf(s) == {s[i] : i \in DOMAIN s}
Distinct(s) == Cardinality(SetOf(s)) = Len(s)
(* what the observers have to say about the complex *)
Shown(F, o) == /\ Distinct(o.labels) /\ SetOf(o.labels) = Vertices(F)
               /\ o.nv = Cardinality(Vertices(F))
               /\ o.dim = DimOf(F)
               /\ o.conn = Connected(F)
               /\ o.counts = [k \in 1..(IF o.full THEN DimOf(F) + 2 ELSE 0) |-> Cardinality(OfDim(F, k - 1))]
               /\ o.full \in BOOLEAN
(* the recorded chain complex: bases list the faces, every face of a simplex occurs with coefficient
   1 or -1 and nothing else does, and the boundary of a boundary is zero; the orientations are free *)
Cells(x) == [i \in DOMAIN x.basis |-> SetOf(x.basis[i])]
SparseCols(x) == LET at == [j \in 1..x.cols |-> {k \in DOMAIN x.nz : x.nz[k][2] = j - 1}] IN
   [j \in 1..x.cols |-> [i \in {x.nz[k][1] + 1 : k \in at[j]} |-> LET k == CHOOSE k \in at[j] : x.nz[k][1] + 1 = i IN x.nz[k][3]]]
ChainsOf(F, ret) ==
   /\ Len(ret) = DimOf(F) + 1
   /\ LET C == TLCEval([k \in DOMAIN ret |-> TLCEval(Cells(ret[k]))])
          M == TLCEval([k \in DOMAIN ret |-> TLCEval(SparseCols(ret[k]))])
      IN /\ \A k \in DOMAIN ret :
              /\ \A i \in DOMAIN ret[k].basis : Distinct(ret[k].basis[i]) /\ ret[k].dims[i] = k - 1
              /\ Len(ret[k].dims) = Len(C[k])
              /\ Distinct(C[k]) /\ SetOf(C[k]) = OfDim(F, k - 1)
              /\ ret[k].cols = Len(C[k]) /\ ret[k].rows = IF k = 1 THEN 1 ELSE Len(C[k - 1])
              /\ \A i \in DOMAIN ret[k].nz : Ab(ret[k].nz[i][3]) = 1
              /\ IF k = 1 THEN ret[k].nz = <<>>
                 ELSE \A j \in DOMAIN C[k] : /\ {C[k - 1][i] : i \in DOMAIN M[k][j]} = {C[k][j] \ {v} : v \in C[k][j]}
                                             /\ Cardinality(DOMAIN M[k][j]) = Cardinality(C[k][j])
         /\ \A k \in 2..(Len(ret) - 1) : ComposeZero(M[k], M[k + 1])
AsHom(ret) == [k \in DOMAIN ret |-> [free |-> ret[k][1], tors |-> ret[k][2]]]
UpTo(h, m) == IF m < 0 \/ Len(h) <= m + 1 THEN h ELSE SubSeq(h, 1, m + 1)
(* listed generators: columns over the recorded basis of their degree *)
Rel(x) == TLCEval([j \in DOMAIN x |-> TLCEval([i \in {x[j][k][1] + 1 : k \in DOMAIN x[j]} |->
              LET k == CHOOSE k \in DOMAIN x[j] : x[j][k][1] + 1 = i IN x[j][k][2]])])
Generators(F, e) ==
   LET ret == e.ret
       C == TLCEval([k \in DOMAIN ret.chains |-> TLCEval(Cells(ret.chains[k]))])
       M == TLCEval([k \in DOMAIN ret.chains |-> TLCEval(SparseCols(ret.chains[k]))])
       h == Homology(F)
   IN /\ ChainsOf(F, ret.chains)
      /\ AsHom(ret.hom) = Trimmed(h)
      /\ Len(ret.cycles) = Len(ret.hom) /\ Len(ret.bounds) = Len(ret.hom)
      /\ \A k \in DOMAIN ret.hom :
           LET z == Rel(ret.cycles[k]) b == Rel(ret.bounds[k])
               d == IF k = 1 THEN <<>> ELSE M[k]
               up == IF k < Len(M) THEN M[k + 1] ELSE <<>>
               ez == ElemDivs(z) eb == ElemDivs(b)
           IN /\ \A j \in DOMAIN z : DOMAIN z[j] \subseteq DOMAIN C[k]
              /\ \A j \in DOMAIN b : DOMAIN b[j] \subseteq DOMAIN C[k]
              /\ (k > 1 => ComposeZero(d, z))
              /\ Len(z) = Len(C[k]) - RankS(d) /\ Len(ez) = Len(z) /\ \A i \in DOMAIN ez : ez[i] = 1   \* a basis of all cycles
              /\ eb = ElemDivs(up) /\ ElemDivs(b \o up) = eb                                            \* a basis of the boundaries
\* the complex after the call
After(e) == TLCEval(
  CASE e.op = "new" -> {}
    [] e.op = "zero" -> {{v} : v \in SetOf(e.s)}
    [] e.op = "from" -> UNION {NonEmptySub(SetOf(e.ss[i])) : i \in DOMAIN e.ss}
    [] e.op = "attach" -> faces[e.r] \cup NonEmptySub(SetOf(e.s))
    [] OTHER -> faces[e.r])
Answer(F, e) ==
  CASE e.op = "chains" -> ChainsOf(F, e.ret)
    [] e.op = "hom" -> AsHom(e.ret) = Trimmed(UpTo(Homology(F), e.max))
    [] e.op = "gens" -> Generators(F, e)
    [] OTHER -> e.ret = 0
Explains(F, e) == /\ e.out = "ok"
                  /\ Answer(F, e)
                  /\ IF "watch" \in DOMAIN e THEN Shown(F, e.obs) ELSE e.obs = 0
TraceInit == Init /\ l = 1
TraceNext ==
  \/ /\ l <= Len(Trace)
     /\ LET e == Trace[l] IN
        IF e.op = "reset" THEN l' = l + 1 /\ faces' = [r \in Reg |-> {}] /\ maxi' = [r \in Reg |-> {}] /\ last' = [out |-> "ok", ret |-> 0]
        ELSE LET F == After(e) IN
        IF Explains(F, e) THEN faces' = [faces EXCEPT ![e.r] = F] /\ UNCHANGED <<maxi, last>> /\ l' = l + 1
        ELSE Rejected(e) /\ l' = e.nx /\ UNCHANGED vars
  \/ l = Len(Trace) + 1 /\ Finished /\ l' = l + 1 /\ UNCHANGED vars
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l>>
===============================================================================
