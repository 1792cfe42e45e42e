----------------------------- MODULE Texts_Trace -----------------------------
EXTENDS Texts, TraceIO
VARIABLE l
SetOf(s) == {s[i] : i \in DOMAIN s}
(* a matrix of doubles: every entry by one of its texts; the cells of the recorded text are compared one by one *)
Printed(e) ==
   CASE e.t = "i" -> e.ret = Grid(Map(e.rows, LAMBDA x : ToString(x[1])))
     [] e.t = "q" -> e.ret = Grid(Map(e.rows, Fraction))
     [] e.t = "f" /\ e.dbg -> e.ret = Grid(Map(e.rows, Whole))
     [] e.t = "f" /\ ~e.dbg -> LET p == IF e.p < 0 THEN 3 ELSE e.p IN
          /\ Len(e.ret.cells) = Len(e.rows)
          /\ e.ret.text = Grid(e.ret.cells)
          /\ \A i \in DOMAIN e.rows : /\ Len(e.ret.cells[i]) = Len(e.rows[i])
                                      /\ \A j \in DOMAIN e.rows[i] : e.ret.cells[i][j] \in Decimals(e.rows[i][j], p)
TorsOf(s) == [i \in DOMAIN s |-> <<Fraction(s[i][1]), s[i][2]>>]
Real(m) == [free |-> m.free, divs |-> SelectSeq(m.divs, LAMBDA t : t[1] # <<1, 1>>)]
Sym(t) == IF t = "q" THEN "Q" ELSE "Z"
Explains(e) ==
   /\ e.out = "ok"
   /\ CASE e.op = "mat" -> Printed(e) /\ e.obs = 0
        [] e.op = "pool" -> e.ret = Bits(e.len, SetOf(e.on)) /\ e.obs = 0
        [] e.op = "module" -> LET m == Real(e.m) IN
             /\ e.ret.text = ModuleText(Sym(e.t), m.free, TorsOf(m.divs))
             /\ e.ret.zero = (m.free = 0 /\ m.divs = <<>>) /\ e.obs = 0
        [] e.op = "iso" -> e.ret = (Real(e.m) = Real(e.k)) /\ e.obs = 0
        [] e.op = "trivial" -> e.ret = [text |-> "0", zero |-> TRUE] /\ e.obs = 0
TraceInit == l = 1
TraceNext ==
  \/ /\ l <= Len(Trace)
     /\ LET e == Trace[l] IN
        IF e.op = "reset" THEN l' = l + 1
        ELSE IF Explains(e) THEN l' = l + 1
        ELSE Rejected(e) /\ l' = e.nx
  \/ l = Len(Trace) + 1 /\ Finished /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
==============================================================================
