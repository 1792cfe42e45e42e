---------------------------- MODULE Delaunay_Trace ----------------------------
EXTENDS Delaunay, TraceIO
VARIABLE l
SetOf(s) == {s[i] : i \in DOMAIN s}
DelaunayOf(e) ==
   LET S == DOMAIN e.pts
       ts == e.ret.ts
       T == TLCEval({{ts[i][k] + 1 : k \in DOMAIN ts[i]} : i \in DOMAIN ts})
   IN /\ \A i \in DOMAIN ts : Len(ts[i]) = 3
      /\ Cardinality(T) = Len(ts) /\ (IF Len(e.pts) <= 8 THEN T = Triangulation(e.pts, S) ELSE IsTriangulation(e.pts, S, T))
      /\ e.ret.same = TRUE
CircleOf(e) == e.ret = [i \in 1..(Len(e.pts) - 3) |-> Inside(e.pts[1], e.pts[2], e.pts[3], e.pts[i + 3])]
Explains(e) == /\ e.obs = 0 /\ e.out = "ok"
               /\ CASE e.op = "delaunay" -> DelaunayOf(e)
                    [] e.op = "circle" -> CircleOf(e)
TraceInit == l = 1
TraceNext ==
  \/ /\ l <= Len(Trace)
     /\ LET e == Trace[l] IN
        IF e.op = "reset" THEN l' = l + 1
        ELSE IF Explains(e) THEN l' = l + 1
        ELSE Rejected(e) /\ l' = e.nx
  \/ l = Len(Trace) + 1 /\ Finished /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
===============================================================================
