---------------------------- MODULE Direct_Trace ----------------------------
EXTENDS Direct, TraceIO
VARIABLE l
Den(e) == e.den
TransN(M) == [j \in 1..Len(M[1]) |-> [i \in 1..Len(M) |-> M[i][j]]]
One(e) == e.ret
Right(e) ==
  CASE e.op = "det" -> FOk(e.ret) /\ IsDet(e.ret, e.m, e.den)
    [] e.op = "solve" -> MOk(e.ret) /\ Solves(e.ret, e.m, e.den, e.b)
    [] e.op = "lu" -> MOk(e.ret.m) /\ e.ret.frame = TRUE /\ IsLU(e.ret.m, e.m, e.den)
    [] e.op = "gs" -> MOk(e.ret) /\ Orthogonalised(e.ret, e.m, e.den, TRUE)
    [] e.op = "gsw" -> MOk(e.ret) /\ Orthogonalised(e.ret, e.m, e.den, FALSE)
    [] e.op = "householder" -> MOk(e.ret.v) /\ FOk(e.ret.b) /\ MOk(e.ret.w) /\ Reflects(e.ret.v, e.ret.b, e.ret.w, e.m, e.den) /\ Cleared(e.ret.t, e.m)
    [] e.op = "givens" -> FOk(e.ret[1]) /\ FOk(e.ret[2]) /\ Rotates(e.ret[1], e.ret[2], e.a, e.b)
    [] e.op = "norms" -> /\ FOk(e.ret.one) /\ FOk(e.ret.inf) /\ FOk(e.ret.fro)
                         /\ IsRatio(e.ret.one, RowSum(TransN(e.m)), e.den)
                         /\ IsRatio(e.ret.inf, RowSum(e.m), e.den)
                         /\ IsRoot(e.ret.fro, SumSq(e.m), e.den)
                         /\ IF Len(e.m[1]) = 1 THEN FOk(e.ret.two[1]) /\ Len(e.ret.two) = 1 /\ IsRoot(e.ret.two[1], SumSq(e.m), e.den)
                            ELSE e.ret.two = <<>>
    [] e.op = "orthogonal" -> /\ MOk(e.ret) /\ MShape(e.ret, e.n, e.n)
                              /\ Orthogonal(MV(e.ret), TolN(e.n))
    [] e.op = "unit" -> /\ MOk(e.ret) /\ MShape(e.ret, e.n, 1)
                        /\ LET x == TLCEval(Col(MV(e.ret), 1)) IN Near(Dot(x, x), FI(1), TolN(e.n))
    [] e.op = "symmetric" -> MOk(e.ret) /\ MShape(e.ret, e.n, e.n) /\ e.ret = TransN(e.ret)
Explains(e) == e.obs = 0 /\ e.out = "ok" /\ Right(e)
TraceInit == l = 1
TraceNext ==
  \/ /\ l <= Len(Trace)
     /\ LET e == Trace[l] IN
        IF e.op = "reset" THEN l' = l + 1
        ELSE IF Explains(e) THEN l' = l + 1
        ELSE Rejected(e) /\ l' = e.nx
  \/ l = Len(Trace) + 1 /\ Finished /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
