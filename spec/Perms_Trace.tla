---------------------------- MODULE Perms_Trace ----------------------------
EXTENDS Perms, TraceIO
VARIABLES l, kind
RECURSIVE Commas(_)
Commas(c) == IF Len(c) = 1 THEN ToString(c[1]) ELSE ToString(c[1]) \o ", " \o Commas(Tail(c))
RECURSIVE ShowR(_)
ShowR(cs) == IF cs = <<>> THEN "" ELSE "(" \o Commas(cs[1]) \o ")" \o ShowR(Tail(cs))
Shown(p) == IF Canon(p) = <<>> THEN "(1)" ELSE ShowR(Canon(p))
MapOf(s) == [x \in 0..(Len(s) - 1) |-> s[x + 1]]
SeesPerm(o, p) ==
   /\ MapOf(o.map) = p
   /\ (kind = "perm" => /\ Elems(o.unfixed) = Moved(p) /\ Len(o.unfixed) = Cardinality(Moved(p))
                        /\ o.str = Shown(p))
Sees(e) == /\ last'.out = e.out
           /\ (e.out = "ok" => last'.ret = e.ret)
           /\ \A r \in Reg : (perm'[r] # <<>>) <=> (r \in DOMAIN e.obs)
           \* unchanged registers were compared when they were set
           /\ \A r \in DOMAIN e.obs : SeesPerm(e.obs[r], perm'[r])
EdgeSet(es) == {{es[i][1], es[i][2]} : i \in DOMAIN es}
Transposition(t) == IF t = <<>> THEN Id ELSE OfCycles(<<t>>)
Call(e) ==
  CASE e.op = "points" -> Points(e.m)
    [] e.op \in {"cycles", "cycle"} -> FromCycles(e.r, e.cs)
    [] e.op = "list" -> FromList(e.r, e.xs)
    [] e.op = "cyclic" -> Cyclic(e.r, e.x[1], e.x[2])
    [] e.op = "swap" -> Swap(e.r, e.x[1], e.x[2], e.y[1], e.y[2])
    [] e.op = "id" -> Identity(e.r)
    [] e.op \in {"mul", "mulas"} -> Mul(e.r, e.a, e.b)
    [] e.op \in {"inv", "invgen"} -> Invert(e.r, e.a)
    [] e.op = "pow" -> Power(e.r, e.a, e.k)
    [] e.op = "prod" -> Product(e.r, e.xs)
    [] e.op = "order" -> OrderOf(e.a)
    [] e.op = "eq" -> Eq(e.a, e.b)
    [] e.op = "isid" -> IsId(e.a)
    [] e.op = "gens" -> \* transpositions whose product, in order, is the permutation
         /\ \A i \in DOMAIN e.ret : Len(e.ret[i]) \in {0, 2}
         /\ InOrder([i \in DOMAIN e.ret |-> Transposition(e.ret[i])]) = perm[e.a]
         /\ Answer(e.ret)
    [] e.op \in {"act", "actas", "actby"} -> Answer(Act(perm[e.a], e.xs))
    [] e.op = "gact" -> /\ LET s == ActEdges(perm[e.a], EdgeSet(e.es)) IN
                           /\ EdgeSet(e.ret.es) = s /\ Len(e.ret.es) = Cardinality(s)
                           /\ e.ret.n = Cardinality(s)
                        /\ Answer(e.ret)
Step(e) == e.out \in {"ok", "panic"} /\ Call(e) /\ Sees(e)
TraceInit == m = 0 /\ perm = [r \in Reg |-> <<>>] /\ last = [out |-> "ok", ret |-> 0] /\ l = 1 /\ kind = ""
KindAt(i) == IF i <= Len(Trace) /\ Trace[i].op = "points" THEN Trace[i].kind ELSE ""
TraceNext ==
  \/ /\ l <= Len(Trace)
     /\ LET e == Trace[l] IN
        IF e.op = "reset" THEN /\ l' = l + 1 /\ m' = 0 /\ perm' = [r \in Reg |-> <<>>]
                               /\ last' = [out |-> "ok", ret |-> 0] /\ kind' = KindAt(l + 1)
        ELSE IF ENABLED Step(e) THEN Step(e) /\ l' = l + 1 /\ UNCHANGED kind
        ELSE Rejected(e) /\ l' = e.nx /\ UNCHANGED vars /\ UNCHANGED kind
  \/ l = Len(Trace) + 1 /\ Finished /\ l' = l + 1 /\ UNCHANGED vars /\ UNCHANGED kind
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l, kind>>
============================================================================
