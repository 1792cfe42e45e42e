---------------------------- MODULE FormalSums_Trace ----------------------------
EXTENDS FormalSums, TraceIO
VARIABLES l
Names == [i \in 0..320 |-> "b" \o (IF i < 10 THEN "00" ELSE IF i < 100 THEN "0" ELSE "") \o ToString(i)]
CoStr(c) == IF c[2] = 1 THEN ToString(c[1]) ELSE ToString(c[1]) \o "/" \o ToString(c[2])
First(t) == IF t[1] = 1 /\ t[2] = 1 THEN Names[t[3]] ELSE IF t[1] = -1 /\ t[2] = 1 THEN "-" \o Names[t[3]]
            ELSE CoStr(t) \o "·" \o Names[t[3]]
RECURSIVE Others(_)
Others(s) == IF s = <<>> THEN "" ELSE " + (" \o CoStr(s[1]) \o ")·" \o Names[s[1][3]] \o Others(Tail(s))
Str(f) == LET s == Shown(f) IN IF s = <<>> THEN "0" ELSE First(s[1]) \o Others(Tail(s))
Bound == [r \in Reg |-> r]
Sees(e) == /\ last'.out = e.out
           /\ (e.out = "ok" => last'.ret = e.ret)
           /\ \A r \in DOMAIN e.obs : /\ e.obs[r].sum = Shown(v'[r])
                                      /\ e.obs[r].len = Len(e.obs[r].sum)
                                      /\ (e.obs[r].str # "" => e.obs[r].str = Str(v'[r]))
           /\ ("r" \in DOMAIN e /\ e.out = "ok") => e.r \in DOMAIN e.obs
Call(e) ==
  CASE e.op = "zero" -> MkZero(e.r)
    [] e.op \in {"list", "array", "iter"} -> MkList(e.r, e.bs)
    [] e.op = "single" -> MkList(e.r, <<e.x>>)
    [] e.op = "add" -> Add(e.r, e.a, e.b)
    [] e.op = "sub" -> Sub(e.r, e.a, e.b)
    [] e.op = "neg" -> Neg(e.r, e.a)
    [] e.op = "mul" -> Mul(e.r, e.a, e.k)
    [] e.op = "div" -> Div(e.r, e.a, e.k)
    [] e.op = "addb" -> AddBasis(e.r, e.a, e.x)
    [] e.op = "subb" -> SubBasis(e.r, e.a, e.x)
    [] e.op = "badd" -> Set(e.r, AddV(Single(e.x), v[e.a]))      \* object + sum
    [] e.op = "bsub" -> Set(e.r, AddV(Single(e.x), NegV(v[e.a])))
    [] e.op = "bb" -> Set(e.r, IF e.f = "add" THEN FromList(<<e.x, e.y>>) ELSE AddV(Single(e.x), NegV(Single(e.y))))
    [] e.op = "bmul" -> Set(e.r, Scale(Single(e.x), e.k))
    [] e.op = "bneg" -> Set(e.r, NegV(Single(e.x)))
    [] e.op = "sum" -> Sum(e.r, e.as)
    [] e.op = "remove" -> Remove(e.r, e.j)
    [] e.op = "coef" -> CoefOf(e.a, e.x)
    [] e.op = "eq" -> Eq(e.a, e.b)
Step(e) == e.out \in {"ok", "panic"} /\ Call(e) /\ Sees(e)
TraceInit == Init /\ l = 1
TraceNext ==
  \/ /\ l <= Len(Trace)
     /\ LET e == Trace[l] IN
        IF e.op = "reset" THEN l' = l + 1 /\ v' = [r \in Reg |-> Zero] /\ last' = [out |-> "ok", ret |-> 0]
        ELSE IF ENABLED Step(e) THEN Step(e) /\ l' = l + 1
        ELSE Rejected(e) /\ l' = e.nx /\ UNCHANGED vars
  \/ l = Len(Trace) + 1 /\ Finished /\ l' = l + 1 /\ UNCHANGED vars
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l>>
=================================================================================
