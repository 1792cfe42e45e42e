---------------------------- MODULE Lattice_Trace ----------------------------
EXTENDS Lattice, TraceIO
VARIABLE l
\* a recorded double that is an integer up to 10^-6
Whole(p) == FOk(p) /\ (p[2] <= 100 \/ p[2] >= 99999900)
Nint(p) == IF p[2] <= 100 THEN p[1] ELSE p[1] + 1
Right(e) == LET r == e.ret.m n == Len(e.m) m == Len(e.m[1]) IN
   /\ MShape(r, n, m) /\ \A i \in 1..n : \A j \in 1..m : Whole(r[i][j])
   /\ LET C == TLCEval([i \in 1..n |-> [j \in 1..m |-> Nint(r[i][j])]]) IN
      Rebased(e.m, C, e.ret.u) /\ Reduced(C, e.delta)
Explains(e) == e.obs = 0 /\ e.out = "ok" /\ e.op = "lll" /\ Right(e)
TraceInit == l = 1
TraceNext ==
  \/ /\ l <= Len(Trace)
     /\ LET e == Trace[l] IN
        IF e.op = "reset" THEN l' = l + 1
        ELSE IF Explains(e) THEN l' = l + 1
        ELSE Rejected(e) /\ l' = e.nx
  \/ l = Len(Trace) + 1 /\ Finished /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
==============================================================================
