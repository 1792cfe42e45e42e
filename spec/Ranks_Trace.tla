---------------------------- MODULE Ranks_Trace ----------------------------
EXTENDS Ranks, TraceIO
VARIABLE l
FracM(x) == Mk(x.n, x.m, LAMBDA i, j : x.e[i][j])
Call(e) == CASE e.op = "rank" -> e.ret = RankQ(FracM(e.x))
             [] e.op = "betti" -> LET ms == TLCEval([k \in DOMAIN e.maps |-> FracM(e.maps[k])])
                                  IN Composable(ms) /\ e.ret = Betti(ms)
Step(e) == e.out = "ok" /\ e.obs = 0 /\ Call(e)
TOne == IdM(1)
TraceInit == /\ Init /\ l = 1 /\ given = TOne /\ work = TOne /\ U = TOne /\ Ui = TOne /\ V = TOne /\ Vi = TOne
             /\ stage = 2 /\ rk = 0 /\ col = 2
TraceNext ==
  \/ /\ l <= Len(Trace) /\ UNCHANGED rvars
     /\ LET e == Trace[l] IN
        IF e.op = "reset" THEN l' = l + 1
        ELSE IF Step(e) THEN l' = l + 1
        ELSE Rejected(e) /\ l' = e.nx
  \/ l = Len(Trace) + 1 /\ Finished /\ l' = l + 1 /\ UNCHANGED rvars
TraceSpec == TraceInit /\ [][TraceNext]_<<rvars, l>>
===============================================================================
