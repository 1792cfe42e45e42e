---------------------------- MODULE Ints_Trace ----------------------------
EXTENDS Ints, BigInt, TraceIO
VARIABLE l
Small(e) ==
  CASE e.op = "euclid" -> e.ret = [q |-> Quo(e.a, e.b), r |-> Rem(e.a, e.b)]
    [] e.op = "bezout" -> IsBezout(e.a, e.b, e.ret)
    [] e.op = "divides" -> e.ret = Divides(e.a, e.b)
    [] e.op = "unary" -> /\ e.ret.unit = Unit(e.a) /\ e.ret.simple = Abs(e.a)
                         /\ e.ret.prime = Prime(e.a)
                         /\ (e.a # 0 => e.ret.nfac = NPrimeFactors(e.a))
                         /\ e.ret.zero = 0 /\ e.ret.one = 1 /\ e.ret.symbol = "Z"
    \* operands beyond 32 bits: the same laws on exact big integers
    [] e.op = "bigeuclid" -> /\ IsBig(e.ret.q) /\ IsBig(e.ret.r)
                             /\ BAdd(BMul(e.ret.q, e.b), e.ret.r) = e.a
                             /\ e.ret.r[1] >= 0 /\ BCmp(e.ret.r, BAbs(e.b)) < 0
    [] e.op = "bigbezout" -> /\ e.ret.g[1] >= 0
                             /\ BAdd(BMul(e.ret.x, e.a), BMul(e.ret.y, e.b)) = e.ret.g
                             /\ BMul(e.ret.g, e.ret.ca) = e.a /\ BMul(e.ret.g, e.ret.cb) = e.b
    [] e.op = "bigdivides" -> \* the driver knows a multiplier (k) or a remainder 0 < m < |a|
                              IF BAdd(BMul(e.a, e.k), e.m) = e.b /\ e.m[1] >= 0 /\ BCmp(e.m, BAbs(e.a)) < 0
                              THEN e.ret = (e.m = BZero) ELSE FALSE
Step(e) == IsOk(e) /\ Small(e)
TraceInit == l = 1 /\ A = 0 /\ B = 0 /\ a = 0 /\ b = 0 /\ x1 = 1 /\ x2 = 0 /\ y1 = 0 /\ y2 = 1
TraceNext ==
  /\ UNCHANGED vars
  /\ \/ /\ l <= Len(Trace)
        /\ LET e == Trace[l] IN
           IF e.op = "reset" THEN l' = l + 1
           ELSE IF Step(e) THEN l' = l + 1
           ELSE Rejected(e) /\ l' = e.nx
     \/ l = Len(Trace) + 1 /\ Finished /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l>>
===========================================================================
