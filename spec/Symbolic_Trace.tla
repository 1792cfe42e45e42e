---------------------------- MODULE Symbolic_Trace ----------------------------
EXTENDS Symbolic, TraceIO
VARIABLE l
vars == <<pts, deg, fs, l>>
Q(v) == Lowest(v[1], v[2])
Made(e) == TLCEval(
   CASE e.op = "zero" -> Const(Zero)
     [] e.op = "one" -> Const(One)
     [] e.op = "x" -> Arg(-1 - e.c)
     [] e.op \in {"add", "addto"} -> FAdd(Arg(e.a), Arg(e.b))
     [] e.op \in {"sub", "subto"} -> FAdd(Arg(e.a), FScale(Arg(e.b), Whole(-1)))
     [] e.op \in {"mul", "multo"} -> FMul(Arg(e.a), Arg(e.b))
     [] e.op \in {"div", "divto"} -> FDiv(Arg(e.a), Arg(e.b))
     [] e.op = "neg" -> FScale(Arg(e.a), Whole(-1))
     [] e.op = "scale" -> FScale(Arg(e.a), Q(e.q))
     [] e.op = "unscale" -> FScale(Arg(e.a), NInv(Q(e.q)))
     [] e.op = "powi" -> FPower(Arg(e.a), 8 * e.e)
     [] e.op = "powf" -> FPower(Arg(e.a), e.e)
     [] e.op = "sin" -> FSin(Arg(e.a))
     [] e.op = "cos" -> FCos(Arg(e.a))
     [] e.op = "sum" -> FSum(e.fs)
     [] e.op = "product" -> FProduct(e.fs)
     [] e.op = "d" -> FDiff(Arg(e.a), e.n + 1))
(* v = <<w>> renders x; a value that is not a number, or very large, renders only what is not known *)
Shows(v, x) == IF v = <<>> THEN ~Known(x) ELSE Renders(v[1], x)
(* the recorded values are those of the function *)
Agrees(r, f) == Len(r) = Len(pts) /\ \A p \in DOMAIN pts : Shows(r[p], Value(f[p]))
Gradient(r, f, p) == Len(r) = Dims /\ \A n \in 1..Dims : Shows(r[n], Value(JDiff(f[p], n)))
Jacobian(e) == LET f == Arg(e.a) IN
   Len(e.ret) = Len(pts) /\ \A p \in DOMAIN pts : Len(e.ret[p]) = 1 /\ Gradient(e.ret[p][1], f, p)
Multi(e) == LET m == Len(e.fs) IN
   /\ Len(e.ret.at) = m /\ \A i \in 1..m : Agrees(e.ret.at[i], Arg(e.fs[i]))
   /\ Len(e.ret.fs) = Len(pts) /\ Len(e.ret.jac) = Len(pts)
   /\ \A p \in DOMAIN pts :
        /\ Len(e.ret.fs[p]) = m /\ Len(e.ret.jac[p]) = m
        /\ \A i \in 1..m : /\ Len(e.ret.fs[p][i]) = 1 /\ Shows(e.ret.fs[p][i][1], Value(Arg(e.fs[i])[p]))
                           /\ Gradient(e.ret.jac[p][i], Arg(e.fs[i]), p)
(* functions that compare equal have the same expansions, up to the errors *)
Close(x, y) == LET d == NAdd(x, NNeg(y)) IN Known(d) => IF Exact(d) THEN d = Zero ELSE Abs(d[1]) <= d[3]
Same(f, g) == \A p \in DOMAIN pts : \A a \in Both(f[p], g[p]) : Close(f[p][a], g[p][a])
(* the value at the point p of an expression read from a printed form *)
RECURSIVE Read(_, _)
RECURSIVE ReadAll(_, _, _)
ReadAll(s, p, sum) == IF s = <<>> THEN (IF sum THEN Zero ELSE One)
                      ELSE IF sum THEN NAdd(Read(s[1], p), ReadAll(Tail(s), p, sum)) ELSE NMul(Read(s[1], p), ReadAll(Tail(s), p, sum))
PowerAt(u, e) == IF ~Known(u) THEN None ELSE IF u = Zero THEN (IF e > 0 THEN Zero ELSE IF e = 0 THEN One ELSE None)
                 ELSE Power8(u, e)
Read(t, p) == CASE t.k = "number" -> <<t.v[1], t.v[2], t.v[3]>>
                [] t.k = "x" -> pts[p][t.c + 1]
                [] t.k = "sin" -> SinAt(Read(t.a, p))
                [] t.k = "cos" -> CosAt(Read(t.a, p))
                [] t.k = "power" -> PowerAt(Read(t.a, p), t.e)
                [] t.k = "sum" -> ReadAll(t.s, p, TRUE)
                [] t.k = "product" -> ReadAll(t.s, p, FALSE)
Denotes(t, f) == \A p \in DOMAIN pts : Close(Read(t, p), Value(f[p]))
Explains(e) ==
   /\ e.out = "ok" /\ e.obs = 0
   /\ CASE e.op = "points" -> e.ret = 0
        [] e.op = "eq" -> IF e.a = e.b THEN e.ret = TRUE ELSE e.ret = TRUE => Same(Arg(e.a), Arg(e.b))
        [] e.op = "reorder" -> e.ret = [sum |-> TRUE, product |-> TRUE]
        [] e.op = "text" -> Denotes(e.ret, Arg(e.a))
        [] e.op = "mtext" -> Len(e.ret) = Len(e.fs) /\ \A i \in DOMAIN e.fs : Denotes(e.ret[i], Arg(e.fs[i]))
        [] e.op = "jacobian" -> Jacobian(e)
        [] e.op = "multi" -> Multi(e)
        [] OTHER -> Agrees(e.ret, Made(e))
TraceInit == l = 1 /\ pts = <<>> /\ deg = 0 /\ fs = <<>>
TraceNext ==
  \/ /\ l <= Len(Trace)
     /\ LET e == Trace[l] IN
        IF e.op = "reset" THEN l' = l + 1 /\ UNCHANGED <<pts, deg, fs>>
        ELSE IF ~Explains(e) THEN Rejected(e) /\ l' = e.nx /\ UNCHANGED <<pts, deg, fs>>
        ELSE /\ l' = l + 1
             /\ CASE e.op = "points" -> pts' = [p \in DOMAIN e.pts |-> [i \in DOMAIN e.pts[p] |-> Q(e.pts[p][i])]] /\ deg' = e.k /\ fs' = <<>>
                  [] e.op \in {"eq", "reorder", "jacobian", "multi", "text", "mtext"} -> UNCHANGED <<pts, deg, fs>>
                  [] OTHER -> Push(Made(e))
  \/ l = Len(Trace) + 1 /\ Finished /\ l' = l + 1 /\ UNCHANGED <<pts, deg, fs>>
TraceSpec == TraceInit /\ [][TraceNext]_vars
===============================================================================
