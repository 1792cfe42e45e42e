--------------------------- MODULE LSets_Trace ---------------------------
EXTENDS LSets, TraceIO
VARIABLE l
RECURSIVE Join(_)
Join(s) == IF s = <<>> THEN "" ELSE IF Len(s) = 1 THEN s[1] ELSE s[1] \o ", " \o Join(Tail(s))
Sees(e) == /\ last'.out = e.out
           /\ (e.out = "ok" => last'.ret = e.ret)
           /\ \A r \in Reg : ls'[r].ok <=> r \in DOMAIN e.obs
           /\ \A r \in DOMAIN e.obs : /\ e.obs[r].mem = InOrder(ls'[r])
                                      /\ e.obs[r].n = Cardinality(ls'[r].mem)
                                      /\ e.obs[r].str = "{" \o Join(InOrder(ls'[r])) \o "}"
Call(e) == CASE e.op = "lnew" -> LNew(e.r, e.ls)
             [] e.op = "ladd" -> LAdd(e.r, e.x)
             [] e.op = "lremove" -> LRemove(e.r, e.x)
             [] e.op = "lcopy" -> LCopy(e.r, e.a)
             [] e.op = "leq" -> LEq(e.a, e.b)
Step(e) == e.out \in {"ok", "panic"} /\ Call(e) /\ Sees(e)
TraceInit == Init /\ l = 1
TraceNext ==
  \/ /\ l <= Len(Trace)
     /\ LET e == Trace[l] IN
        IF e.op = "reset" THEN /\ l' = l + 1 /\ ls' = [r \in Reg |-> NoSet]
                               /\ last' = [out |-> "ok", ret |-> 0]
        ELSE IF ENABLED Step(e) THEN Step(e) /\ l' = l + 1
        ELSE Rejected(e) /\ l' = e.nx /\ UNCHANGED vars
  \/ l = Len(Trace) + 1 /\ Finished /\ l' = l + 1 /\ UNCHANGED vars
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l>>
==========================================================================
