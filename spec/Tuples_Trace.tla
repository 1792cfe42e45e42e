--------------------------- MODULE Tuples_Trace ---------------------------
EXTENDS Tuples, TraceIO
VARIABLES l, xs
At(p) == [i \in DOMAIN p |-> xs[p[i]]]
\* the enumeration from the present state, at most c tuples: <<tuples, pos, done>>
RECURSIVE Rest(_, _, _)
Rest(p, d, c) == IF d \/ c = 0 THEN <<p, d>>
                 ELSE IF Movable(p, n) = {} THEN <<p, TRUE>> ELSE Rest(Succ(p, n), FALSE, c - 1)
RECURSIVE Agree(_, _, _, _)
Agree(r, i, p, d) == \* r[i..] is exactly what remains
   IF d THEN i = Len(r) + 1
   ELSE i <= Len(r) /\ r[i] = At(p) /\
        IF Movable(p, n) = {} THEN i = Len(r) ELSE Agree(r, i + 1, Succ(p, n), FALSE)
TStep(e) ==
  CASE e.op = "tnew" -> Start(Len(e.xs), e.k) /\ xs' = e.xs
    [] e.op = "tnext" -> /\ NextCall /\ UNCHANGED xs
                         /\ e.ret.some = out'.some
                         /\ (out'.some => e.ret.t = At(out'.t))
    [] e.op = "trest" -> /\ Agree(e.ret, 1, pos, done)
                         /\ done' = TRUE /\ out' = Nothing /\ UNCHANGED <<n, k, pos, xs>>
Step(e) == IsOk(e) /\ TStep(e)
TraceInit == n = 0 /\ k = 0 /\ pos = <<>> /\ done = TRUE /\ out = Nothing /\ yielded = <<>> /\ xs = <<>> /\ l = 1
TraceNext ==
  /\ UNCHANGED yielded
  /\ \/ /\ l <= Len(Trace)
        /\ LET e == Trace[l] IN
           IF e.op = "reset" THEN l' = l + 1 /\ UNCHANGED <<vars, xs>>
           ELSE IF ENABLED Step(e) THEN Step(e) /\ l' = l + 1
           ELSE Rejected(e) /\ l' = e.nx /\ UNCHANGED <<vars, xs>>
     \/ l = Len(Trace) + 1 /\ Finished /\ l' = l + 1 /\ UNCHANGED <<vars, xs>>
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, yielded, xs, l>>
==========================================================================
