---------------------------- MODULE Matrices_Trace ----------------------------
EXTENDS Matrices, TraceIO
VARIABLES l
CoStr(c) == IF c[2] = 1 THEN ToString(c[1]) ELSE ToString(c[1]) \o "/" \o ToString(c[2])
RECURSIVE RowStr(_), AllStr(_)
RowStr(x) == IF Len(x) = 1 THEN CoStr(x[1]) ELSE CoStr(x[1]) \o "\t" \o RowStr(Tail(x))
AllStr(e) == IF e = <<>> THEN "" ELSE "| " \o RowStr(e[1]) \o " |\n" \o AllStr(Tail(e))
\* the combinations of basis elements that the rows of A denote, in normal form
RECURSIVE SumOver(_, _, _, _, _)
SumOver(A, i, bs, b, j) == IF j = 0 THEN 0 ELSE (IF bs[j] = b THEN A.e[i][j][1] ELSE 0) + SumOver(A, i, bs, b, j - 1)
Combine(A, i, bs) == LET S == SortedSeq({b \in Elems(bs) : SumOver(A, i, bs, b, Len(bs)) # 0})
                     IN [p \in DOMAIN S |-> <<SumOver(A, i, bs, S[p], Len(bs)), 1, S[p]>>]
Sees(e) == /\ last'.out = e.out
           /\ (e.out = "ok" => last'.ret = e.ret)
           /\ ("r" \notin DOMAIN e => e.obs = [none |-> 0])
           /\ ("r" \in DOMAIN e) => /\ (e.out = "ok" => e.r \in DOMAIN e.obs)
                                    /\ (e.r \in DOMAIN e.obs => e.obs[e.r] = mat'[e.r])
Fac(e) == IF e.own \in {"dr", "do", "d"} THEN CInv(e.x) ELSE e.x
Call(e) ==
  CASE e.op = "rows" -> FromRows(e.r, e.rows)
    [] e.op = "zeros" -> Zeros(e.r, e.n, e.m)
    [] e.op = "huge" -> IF e.n > 65535 \/ e.m > 65535 THEN Refuse \/ Say(<<e.n, e.m, e.n, e.m>>) ELSE Say(<<e.n, e.m, e.n, e.m>>)
    [] e.op = "ident" -> Ident(e.r, e.n)
    [] e.op = "read" -> ReadView(e.a, e.s)
    [] e.op = "show" -> LET V == View(mat[e.a], e.s) IN Guard(V.ok, Say("\n" \o AllStr(Read(mat[e.a], V).e)))
    [] e.op = "get" -> Get(e.a, e.s, e.p, e.q)
    [] e.op = "dot" -> Dot(e.a, e.s, e.b, e.s2)
    [] e.op = "vdot" -> Say(Times(Transp(mat[e.a]), mat[e.b]).e[1][1])
    [] e.op = "eq" -> Eq(e.a, e.s, e.b, e.s2)
    [] e.op = "put" -> PutEntry(e.r, e.s, e.p, e.q, e.x)
    [] e.op = "swaprows" -> SwapRows(e.r, e.s, e.p, e.q)
    [] e.op = "swapcols" -> SwapCols(e.r, e.s, e.p, e.q)
    [] e.op = "rowop" -> RowOp(e.r, e.s, e.p, e.q, e.x)
    [] e.op = "colop" -> ColOp(e.r, e.s, e.p, e.q, e.x)
    [] e.op = "scaleas" -> ScaleAs(e.r, e.s, e.x)
    [] e.op = "divas" -> ScaleAs(e.r, e.s, CInv(e.x))
    [] e.op = "write" -> Write(e.r, e.s, e.a, e.s2)
    [] e.op = "add" -> Add(e.r, e.a, e.s, e.b, e.s2)
    [] e.op = "sub" -> Sub(e.r, e.a, e.s, e.b, e.s2)
    [] e.op = "mul" -> Mul(e.r, e.a, e.s, e.b, e.s2)
    [] e.op = "scale" -> Scale(e.r, e.a, e.s, Fac(e))
    [] e.op = "neg" -> Scale(e.r, e.a, <<>>, <<-1, 1>>)
    [] e.op = "transp" -> Transpose(e.r, e.a)
    [] e.op = "transpself" -> Transpose(e.r, e.r)
    [] e.op = "copy" -> Copy(e.r, e.a, e.s)
    [] e.op = "fromcols" -> Set(e.r, Mk(mat[e.as[1]].n, Len(e.as), LAMBDA i, j : mat[e.as[j]].e[i][1]))
    [] e.op = "basis" -> Guard(mat[e.a].m = Len(e.bs), Say([i \in 1..mat[e.a].n |-> Combine(mat[e.a], i, e.bs)]))
Step(e) == e.out \in {"ok", "panic"} /\ Call(e) /\ Sees(e)
TraceInit == Init /\ l = 1
TraceNext ==
  \/ /\ l <= Len(Trace)
     /\ LET e == Trace[l] IN
        IF e.op = "reset" THEN l' = l + 1 /\ mat' = [r \in Reg |-> Unset] /\ last' = [out |-> "ok", ret |-> 0]
        ELSE IF ENABLED Step(e) THEN Step(e) /\ l' = l + 1
        ELSE Rejected(e) /\ l' = e.nx /\ UNCHANGED vars
  \/ l = Len(Trace) + 1 /\ Finished /\ l' = l + 1 /\ UNCHANGED vars
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l>>
===============================================================================
