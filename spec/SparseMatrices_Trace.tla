---------------------------- MODULE SparseMatrices_Trace ----------------------------
EXTENDS SparseMatrices, TraceIO
VARIABLES l
CoStr(c) == IF c[2] = 1 THEN ToString(c[1]) ELSE ToString(c[1]) \o "/" \o ToString(c[2])
RECURSIVE Line(_, _, _), Lines(_, _)
Line(i, s, k) == IF k > Len(s) THEN "" ELSE
   "(" \o ToString(i) \o ", " \o ToString(s[k][1]) \o "): " \o CoStr(s[k][2]) \o "\n" \o Line(i, s, k + 1)
Lines(A, i) == IF i = A.n THEN "" ELSE Line(i, RowOf(A, i), 1) \o Lines(A, i + 1)
Sees(e) == /\ last'.out = e.out
           /\ (e.out = "ok" => last'.ret = e.ret)
           /\ ("r" \notin DOMAIN e => e.obs = 0)
           /\ ("r" \in DOMAIN e /\ e.r \in Reg) => e.obs = mat'[e.r]
           /\ ("r" \in DOMAIN e /\ e.r \in SReg) =>
                 /\ e.obs.n = sp'[e.r].n /\ e.obs.m = sp'[e.r].m
                 /\ e.obs.rows = [i \in 1..sp'[e.r].n |-> RowOf(sp'[e.r], i - 1)]
                 /\ e.obs.cols = [j \in 1..sp'[e.r].m |-> ColOf(sp'[e.r], j - 1)]
Call(e) ==
  CASE e.op = "sbuild" -> SBuild(e.r, e.n, e.m, e.es)
    [] e.op = "stransp" -> STranspose(e.r, e.a)
    [] e.op = "srow" -> Rows_(e.a, e.p)
    [] e.op = "scol" -> Cols_(e.a, e.p)
    [] e.op = "sshow" -> UNCHANGED sp /\ Say(Lines(sp[e.a], 0))
    [] e.op = "rows" -> UNCHANGED sp /\ FromRows(e.r, e.rows)
    [] e.op = "eqd" -> EqDense(e.a, e.b)
    [] e.op = "ss" -> SMulS(e.r, e.a, e.b)
    [] e.op = "sd" -> SMulD(e.r, e.a, e.b)
    [] e.op = "ds" -> DMulS(e.r, e.a, e.b)
Step(e) == e.out \in {"ok", "panic"} /\ Call(e) /\ Sees(e)
TraceInit == SInit /\ l = 1
TraceNext ==
  \/ /\ l <= Len(Trace)
     /\ LET e == Trace[l] IN
        IF e.op = "reset" THEN /\ l' = l + 1 /\ sp' = [r \in SReg |-> SUnset]
                               /\ mat' = [r \in Reg |-> Unset] /\ last' = [out |-> "ok", ret |-> 0]
        ELSE IF ENABLED Step(e) THEN Step(e) /\ l' = l + 1
        ELSE Rejected(e) /\ l' = e.nx /\ UNCHANGED svars
  \/ l = Len(Trace) + 1 /\ Finished /\ l' = l + 1 /\ UNCHANGED svars
TraceSpec == TraceInit /\ [][TraceNext]_<<svars, l>>
=====================================================================================
