--------------------------- MODULE Pools_Trace ---------------------------
EXTENDS Pools, TraceIO
VARIABLE l

SeesPool(o, p) == /\ o.len = p.len /\ o.n = Cardinality(p.mem)
                  /\ Lists(o.mem, p.mem) /\ o.has = o.mem
                  /\ o.full = Full(p)
Sees(e) == /\ last'.out = e.out
           /\ (e.out = "ok" => last'.ret = e.ret)
           /\ \A r \in Reg : (pool'[r].len >= 0) <=> (r \in DOMAIN e.obs)
           /\ \A r \in DOMAIN e.obs : SeesPool(e.obs[r], pool'[r])
Call(e) == CASE e.op = "new" -> New(e.r, e.n)
             [] e.op = "from" -> From(e.r, e.n, e.xs)
             [] e.op = "add" -> Add(e.r, e.x)
             [] e.op = "remove" -> Remove(e.r, e.x)
             [] e.op = "resize" -> Resize(e.r, e.n)
             [] e.op = "fill" -> Fill(e.r)
             [] e.op = "contains" -> Contains(e.r, e.x)
             [] e.op = "union" -> Union(e.r, e.a, e.b)
             [] e.op = "inter" -> Inter(e.r, e.a, e.b)
             [] e.op = "copy" -> Copy(e.r, e.a)
             [] e.op = "subset" -> Subset(e.a, e.b)
             [] e.op = "eq" -> Eq(e.a, e.b)
Step(e) == e.out \in {"ok", "panic"} /\ Call(e) /\ Sees(e)

TraceInit == Init /\ l = 1
TraceNext ==
  \/ /\ l <= Len(Trace)
     /\ LET e == Trace[l] IN
        IF e.op = "reset" THEN /\ l' = l + 1 /\ pool' = [r \in Reg |-> NoPool]
                              /\ last' = [out |-> "ok", ret |-> 0]
        ELSE IF ENABLED Step(e) THEN Step(e) /\ l' = l + 1
        ELSE Rejected(e) /\ l' = e.nx /\ UNCHANGED vars
  \/ l = Len(Trace) + 1 /\ Finished /\ l' = l + 1 /\ UNCHANGED vars
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l>>
==========================================================================
