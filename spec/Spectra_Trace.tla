---------------------------- MODULE Spectra_Trace ----------------------------
EXTENDS Spectra, TraceIO
VARIABLE l
ColOf(M) == TLCEval(Col(MV(M), 1))
Right(e) ==
  \A n \in {Len(e.m)}, N \in {NormD(e.m, e.den)}, F \in {MI(e.m, e.den)} :
  LET r == e.ret
      Eigen(V0, x0) == \A V \in {V0}, x \in {x0} : \A j \in 1..Len(x) : IsEigen(F, TLCEval(Col(V, j)), x[j], TolR(n, N))
  IN
  CASE e.op \in {"spectrum", "spectrum_sym"} -> MOk(r) /\ MShape(r, n, 1) /\ IsSpectrum(ColOf(r), e.m, e.den)
    [] e.op \in {"inv", "invs"} -> /\ MOk(r.l) /\ MOk(r.v) /\ MShape(r.l, n, 1) /\ MShape(r.v, n, n)
                                   /\ IsSpectrum(ColOf(r.l), e.m, e.den) /\ Eigen(MV(r.v), ColOf(r.l))
    [] e.op = "small" -> /\ MOk(r.l) /\ MOk(r.v) /\ MShape(r.l, n, 1) /\ MShape(r.v, n, e.k)
                         /\ IsSpectrum(ColOf(r.l), e.m, e.den) /\ Eigen(MV(r.v), TLCEval(SubSeq(ColOf(r.l), 1, e.k)))
    [] e.op = "nth" -> /\ FOk(r.l) /\ MOk(r.v) /\ MShape(r.v, n, 1) /\ MOk(r.all) /\ MShape(r.all, n, 1)
                       /\ IsSpectrum(ColOf(r.all), e.m, e.den) /\ Near(FV(r.l), ColOf(r.all)[e.k + 1], BOf(10))
                       /\ Eigen(MV(r.v), <<FV(r.l)>>)
    [] e.op = "hess" -> /\ MOk(r.m) /\ MShape(r.m, n, n) /\ r.frame = TRUE
                        /\ \A H \in {MV(r.m)} : Hessenberg(H) /\ SameTraces(F, H, N) /\ SameWords(F, H, N)
    [] e.op = "tridiag" -> /\ MOk(r.t) /\ MOk(r.t0) /\ MOk(r.q) /\ MShape(r.t, n, n) /\ MShape(r.t0, n, n) /\ MShape(r.q, n, n)
                           /\ \A G \in {MV(r.t)}, Q \in {Tp(MV(r.q))} :
                              /\ Tridiagonal(G) /\ Conjugates(Q, F, G, N)
                              /\ \A i \in 1..n : Near(Q[1][i], IF i = 1 THEN FI(1) ELSE BZero, Small)
                              /\ NearM(G, MV(r.t0), Small)
    [] e.op = "symqr" -> /\ MOk(r.t) /\ MOk(r.t0) /\ MOk(r.q) /\ MShape(r.t, n, n) /\ MShape(r.t0, n, n) /\ MShape(r.q, n, n)
                         /\ \A G \in {MV(r.t)}, G0 \in {MV(r.t0)} :
                            /\ Tridiagonal(G) /\ Isolated(G) /\ Conjugates(Tp(MV(r.q)), F, G, N)
                            /\ Tridiagonal(G0) /\ Isolated(G0) /\ SameTraces(F, G0, N)
    [] e.op = "qr" -> /\ MOk(r.t) /\ MOk(r.t0) /\ MOk(r.q) /\ MShape(r.t, n, n) /\ MShape(r.t0, n, n) /\ MShape(r.q, n, n)
                      /\ r.frame = TRUE
                      /\ \A G \in {MV(r.t)}, G0 \in {MV(r.t0)} :
                         /\ QuasiTriangular(G) /\ Conjugates(MV(r.q), F, G, N)
                         /\ QuasiTriangular(G0) /\ SameTraces(F, Blocks(G0), N)
    [] e.op = "francis" -> /\ MOk(r.t) /\ MOk(r.t0) /\ MOk(r.q) /\ MShape(r.t, n, n) /\ MShape(r.q, n, n) /\ r.frame = TRUE
                           /\ \A G \in {MV(r.t)} :
                              /\ Hessenberg(G) /\ Conjugates(MV(r.q), F, G, N) /\ Hessenberg(MV(r.t0)) /\ SameTraces(F, MV(r.t0), N)
    [] e.op = "wilkinson" -> /\ MOk(r.t) /\ MOk(r.t0) /\ MOk(r.rot) /\ MShape(r.t, n, n) /\ MShape(r.rot, n - 1, 2) /\ r.frame = TRUE
                             /\ \A G \in {MV(r.t)} :
                                /\ Tridiagonal(G) /\ Conjugates(Rotations(MV(r.rot), n), F, G, N)
                                /\ Tridiagonal(MV(r.t0)) /\ SameTraces(F, MV(r.t0), N)
Explains(e) == e.obs = 0 /\ e.out = "ok" /\ Right(e)
TraceInit == l = 1
TraceNext ==
  \/ /\ l <= Len(Trace)
     /\ LET e == Trace[l] IN
        IF e.op = "reset" THEN l' = l + 1
        ELSE IF Explains(e) THEN l' = l + 1
        ELSE Rejected(e) /\ l' = e.nx
  \/ l = Len(Trace) + 1 /\ Finished /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
==============================================================================
