-------------------------- MODULE Rationals_Trace --------------------------
EXTENDS Rationals, BigInt, TraceIO
VARIABLE l
\* the recorded numbers of this trace fit TLC's integers
IntOf(v) == LET RECURSIVE F(_, _)
                F(i, acc) == IF i = 1 THEN acc ELSE F(i - 1, acc * 10000 + v[i])
            IN v[1] * F(Len(v), 0)
Shown(v) == LET s == ToString(v[1]) IN IF v[2] = 1 THEN s ELSE s \o "/" \o ToString(v[2])
SeesValue(o, v) == /\ o.n = BOf(Abs(v[1])) /\ o.d = BOf(v[2])
                   /\ o.str = Shown(v) /\ o.dbg = o.str
Sees(e) == /\ last'.out = e.out
           /\ (e.out = "ok" => last'.ret = e.ret)
           /\ \A r \in Reg : (reg'[r] # <<>>) <=> (r \in DOMAIN e.obs)
           /\ \A r \in DOMAIN e.obs : SeesValue(e.obs[r], reg'[r])
\* operands beyond 32 bits: exact big-integer cross multiplication, lowest terms by witness
BigOk(e) == LET o == e.ret  L(p, q) == BMul(p, q) IN
   /\ IsBig(o.n) /\ IsBig(o.d) /\ o.d[1] = 1
   /\ BAdd(L(o.n, o.x), L(o.d, o.y)) = BOne
   /\ CASE e.f = "add" -> L(o.n, L(e.ad, e.bd)) = L(o.d, BAdd(L(e.an, e.bd), L(e.bn, e.ad)))
        [] e.f = "sub" -> L(o.n, L(e.ad, e.bd)) = L(o.d, BSub(L(e.an, e.bd), L(e.bn, e.ad)))
        [] e.f = "mul" -> L(o.n, L(e.ad, e.bd)) = L(o.d, L(e.an, e.bn))
        [] e.f = "div" -> L(o.n, L(e.ad, e.bn)) = L(o.d, L(e.an, e.bd))
   /\ IsBig(o.fl) /\ BCmp(BMul(BAbs(BSub(o.fl, o.n)), BOf(1000000000)), BAdd(BAbs(o.n), BOf(1000000))) <= 0     \* the floating-point value
   /\ LET c == BCmp(L(e.an, e.bd), L(e.bn, e.ad)) * (e.ad[1] * e.bd[1]) IN o.cmp = c /\ o.eq = (c = 0)
Call(e) == CASE e.op = "new" -> New(e.r, IntOf(e.n), IntOf(e.d))
             [] e.op = "int" -> New(e.r, IntOf(e.n), 1)
             [] e.op = "zero" -> Put(e.r, Zero)
             [] e.op = "one" -> Put(e.r, One)
             [] e.op \in {"add", "addas"} -> Add(e.r, e.a, e.b)
             [] e.op \in {"sub", "subas"} -> Sub(e.r, e.a, e.b)
             [] e.op \in {"mul", "mulas"} -> Mul(e.r, e.a, e.b)
             [] e.op \in {"div", "divas"} -> Div(e.r, e.a, e.b)
             [] e.op = "neg" -> Neg(e.r, e.a)
             [] e.op = "abs" -> AbsV(e.r, e.a)
             [] e.op = "sum" -> SumOf(e.r, e.xs)
             [] e.op = "prod" -> ProdOf(e.r, e.xs)
             [] e.op = "cmp" -> Compare(e.a, e.b)
             [] e.op = "max" -> Larger(e.r, e.a, e.b)
             [] e.op = "min" -> Smaller(e.r, e.a, e.b)
             [] e.op = "field" -> \* division with remainder in a field: exact, remainder zero
                  IF reg[e.b] = Zero THEN Refuse
                  ELSE /\ reg' = [reg EXCEPT !["q"] = QDiv(reg[e.a], reg[e.b]), !["m"] = Zero]
                       /\ last' = [out |-> "ok", ret |-> TRUE]
             [] e.op = "tofloat" -> /\ UNCHANGED reg
                                    /\ last' = [out |-> "ok", ret |-> reg[e.a][1]]
StepBig(e) == IsOk(e) /\ BigOk(e) /\ UNCHANGED vars
StepSmall(e) == e.out \in {"ok", "panic"} /\ Call(e) /\ Sees(e)
Step(e) == IF e.op = "bigq" THEN StepBig(e) ELSE StepSmall(e)
TraceInit == Init /\ l = 1
TraceNext ==
  \/ /\ l <= Len(Trace)
     /\ LET e == Trace[l] IN
        IF e.op = "reset" THEN l' = l + 1 /\ reg' = [r \in Reg |-> <<>>] /\ last' = [out |-> "ok", ret |-> 0]
        ELSE IF ENABLED Step(e) THEN Step(e) /\ l' = l + 1
        ELSE Rejected(e) /\ l' = e.nx /\ UNCHANGED vars
  \/ l = Len(Trace) + 1 /\ Finished /\ l' = l + 1 /\ UNCHANGED vars
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l>>
============================================================================
