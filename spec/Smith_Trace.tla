---------------------------- MODULE Smith_Trace ----------------------------
(* One recorded call of the reduction is a whole run of the machine of Smith: from the given matrix
   to some stopped state, reported through the five matrices. Values beyond 32 bits come as limbs. *)
EXTENDS Smith, TraceIO
VARIABLE l
G == INSTANCE BigInt
IntM(rows) == Mk(Len(rows), Len(rows[1]), LAMBDA i, j : Z(rows[i][j]))
ShapeOk(rows, n, m) == Len(rows) = n /\ \A i \in 1..n : Len(rows[i]) = m
Shapes(e) == LET n == Len(e.rows) m == Len(e.rows[1]) IN
   /\ ShapeOk(e.ret.ri, n, n) /\ ShapeOk(e.ret.r, n, n) /\ ShapeOk(e.ret.d, n, m)
   /\ ShapeOk(e.ret.c, m, m) /\ ShapeOk(e.ret.ci, m, m)
Small3(M) == M.n <= 3 /\ M.m <= 3
Whole_(e) == /\ Shapes(e)
             /\ LET A == IntM(e.rows) D == IntM(e.ret.d) r == IntM(e.ret.r) ri == IntM(e.ret.ri) c == IntM(e.ret.c) ci == IntM(e.ret.ci) IN
                /\ RecordedFor(A, D, r, ri, c, ci) /\ Normal(D)
                /\ (Small3(A) => SameDivisors(A, D, MinI(A.n, A.m)))
                /\ given' = A /\ work' = D /\ U' = r /\ Ui' = ri /\ V' = c /\ Vi' = ci
                /\ stage' = MinI(A.n, A.m) + 1
\* the same over limbs
RECURSIVE BDot(_, _, _, _, _)
BDot(A, B, i, j, k) == IF k = 0 THEN G!BZero ELSE
   IF A[i][k] = <<0>> \/ B[k][j] = <<0>> THEN BDot(A, B, i, j, k - 1)
   ELSE G!BAdd(G!BMul(A[i][k], B[k][j]), BDot(A, B, i, j, k - 1))
BTimes(A, B, n, k, m) == TLCEval([i \in 1..n |-> TLCEval([j \in 1..m |-> BDot(A, B, i, j, k)])])
BId(n) == [i \in 1..n |-> [j \in 1..n |-> IF i = j THEN G!BOne ELSE G!BZero]]
AllBig(rows) == \A i \in DOMAIN rows : \A j \in DOMAIN rows[i] : G!IsBig(rows[i][j])
BigRun(e) == LET n == Len(e.rows) m == Len(e.rows[1]) x == e.ret
                 A == TLCEval([i \in 1..n |-> TLCEval([j \in 1..m |-> G!BOf(e.rows[i][j])])])
             IN /\ Shapes(e) /\ AllBig(x.r) /\ AllBig(x.ri) /\ AllBig(x.c) /\ AllBig(x.ci) /\ AllBig(x.d)
                /\ BTimes(BTimes(x.r, A, n, n, m), x.c, n, m, m) = x.d
                /\ BTimes(x.r, x.ri, n, n, n) = BId(n) /\ BTimes(x.ri, x.r, n, n, n) = BId(n)
                /\ BTimes(x.c, x.ci, m, m, m) = BId(m) /\ BTimes(x.ci, x.c, m, m, m) = BId(m)
                /\ \A i \in 1..n : \A j \in 1..m : i # j => x.d[i][j] = G!BZero
                /\ Len(x.q) = MinI(n, m) - 1
                /\ \A k \in DOMAIN x.q : G!BMul(x.d[k][k], x.q[k]) = x.d[k + 1][k + 1]
                /\ UNCHANGED <<given, work, U, Ui, V, Vi, stage>>
Step(e) == /\ e.op = "snf" /\ e.out = "ok" /\ e.obs = 0
           /\ IF e.ret.f = "s" THEN Whole_(e) ELSE e.ret.f = "b" /\ BigRun(e)
TOne == IdM(1)
TraceInit == /\ Init /\ l = 1 /\ given = TOne /\ work = TOne /\ U = TOne /\ Ui = TOne /\ V = TOne /\ Vi = TOne /\ stage = 2
TraceNext ==
  \/ /\ l <= Len(Trace)
     /\ UNCHANGED <<mat, last>>
     /\ LET e == Trace[l] IN
        IF e.op = "reset" THEN l' = l + 1 /\ UNCHANGED <<given, work, U, Ui, V, Vi, stage>>
        ELSE IF ENABLED Step(e) THEN Step(e) /\ l' = l + 1
        ELSE Rejected(e) /\ l' = e.nx /\ UNCHANGED <<given, work, U, Ui, V, Vi, stage>>
  \/ l = Len(Trace) + 1 /\ Finished /\ l' = l + 1 /\ UNCHANGED svars
TraceSpec == TraceInit /\ [][TraceNext]_<<svars, l>>
===============================================================================
