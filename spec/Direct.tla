------------------------------- MODULE Direct -------------------------------
(* What determinants, linear solvers, LU factors, orthogonalisations, reflections, rotations
   and norms have to satisfy, in exact arithmetic; Direct_MC checks the elimination with
   partial pivoting that meets it.  Matrices A hold integers and stand for A/den.          *)
EXTENDS Fixed, FiniteSets
Unit == 100                                   \* the resolution of a claim: 10^-6
TolN(k) == BMul(BOf(Unit), BOf(k))
RECURSIVE IPow(_, _)
IPow(a, k) == IF k = 0 THEN 1 ELSE a * IPow(a, k - 1)

(* d = det(A/den) *)
IsDet(d, A, den) == LET n == Len(A) IN
                    IF n # Len(A[1]) THEN FV(d) = BZero
                    ELSE Near(BMul(FV(d), BOf(IPow(den, n))), FI(Det(A)), TolN(IPow(den, n)))
(* (A/den) x = b *)
Bound(x) == LET RECURSIVE F(_, _)
                F(i, acc) == IF i > Len(x) THEN acc ELSE F(i + 1, IF AbsN(x[i][1][1]) + 1 > acc THEN AbsN(x[i][1][1]) + 1 ELSE acc)
            IN F(1, 1)
Solves(x, A, den, b) ==
   \A F \in {MI(A, 1)}, X \in {MV(x)} :
   /\ MShape(x, Len(A), 1)
   /\ NearM(MMulF(F, X), MI([i \in 1..Len(b) |-> <<b[i][1] * den>>], 1), BMul(TolN(RowSum(A)), BOf(Bound(x))))
(* the factors of A/den in one matrix: the strict lower part of L and the upper part of U *)
IsLU(M, A, den) ==
   LET n == Len(A) W == MV(M)
       L == TLCEval([i \in 1..n |-> [j \in 1..n |-> IF i > j THEN W[i][j] ELSE IF i = j THEN FI(1) ELSE BZero]])
       U == TLCEval([i \in 1..n |-> [j \in 1..n |-> IF i <= j THEN W[i][j] ELSE BZero]])
       big == LET RECURSIVE G(_, _)
                  G(q, acc) == IF q > n * n THEN acc
                               ELSE LET v == AbsN(M[((q - 1) \div n) + 1][((q - 1) % n) + 1][1]) + 1
                                    IN G(q + 1, IF v > acc THEN v ELSE acc)
              IN G(1, 1)
   IN MShape(M, n, n) /\ NearM(MMulF(L, U), MI(A, den), TolN(n * big))
(* the Gram determinants G_0 = 1, G_1, .. of the columns of A *)
Gram(A) == TLCEval([i \in 1..Len(A[1]) |-> [j \in 1..Len(A[1]) |-> SumN([k \in 1..Len(A) |-> A[k][i] * A[k][j]], 1)]])
GramDets(A) == LET G == Gram(A) IN
               TLCEval([j \in 1..Len(A[1]) |-> Det([p \in 1..j |-> [q \in 1..j |-> G[p][q]]])])
(* column j of O is the part of column j of A/den orthogonal to the earlier columns, or its direction *)
Orthogonalised(O, A, den, unit) ==
   \A n \in {Len(A)}, m \in {Len(A[1])}, V \in {MV(O)}, F \in {MI(A, den)}, g \in {GramDets(A)} :
   LET C(M, j) == TLCEval(Col(M, j))
       G0(j) == IF j = 1 THEN 1 ELSE g[j - 1]
       big == RowSum(A)
   IN /\ MShape(O, n, m)
      /\ \A j \in 1..m :
           LET o == C(V, j) nn == Dot(o, o) on == Dot(o, C(F, j)) IN
           /\ \A i \in 1..(j - 1) : Near(Dot(o, C(F, i)), BZero, TolN(n * big))
           /\ on[1] = 1
           /\ IF unit
              THEN /\ Near(nn, FI(1), TolN(n))     \* (o.a)^2 G_{j-1} den^2 = G_j
                   /\ Near(BMul(FMul(on, on), BOf(G0(j) * den * den)), FI(g[j]), BMul(TolN(n * big * den * den), BOf(big * G0(j))))
              ELSE /\ Near(nn, on, TolN(n * big))  \* |o|^2 G_{j-1} den^2 = G_j
                   /\ Near(BMul(nn, BOf(G0(j) * den * den)), FI(g[j]), BMul(TolN(n * big * den * den), BOf(G0(j))))
(* I - beta v v^T is an orthogonal map (or the identity) which sends x/den to |x/den| e_1 *)
(* the reflection I - beta v v^T, recorded also by the unit vector w = sqrt(beta/2) v: w is v scaled (v_1 = 1), it
   has length one (or is zero: the identity), and I - 2 w w^T maps x to a nonnegative multiple of the first axis *)
Reflects(v, beta, w, x, den) ==
   LET n == Len(x) V == TLCEval(Col(MV(v), 1)) W == TLCEval(Col(MV(w), 1)) X == TLCEval(Col(MI(x, den), 1)) b == FV(beta)
       c == BMul(BOf(2), Dot(W, X)) big == SumN([i \in 1..n |-> AbsN(x[i][1]) \div den], 1) + 2
       y == TLCEval([i \in 1..n |-> BSub(X[i], FMul(c, W[i]))])
       tol == BOf(8 * big)
   IN /\ MShape(v, n, 1) /\ MShape(w, n, 1) /\ V[1] = FI(1)
      /\ \A i \in 1..n : Near(W[i], FMul(V[i], W[1]), BOf(4 * (AbsN(v[i][1][1]) + 1)))
      /\ Near(b, BMul(BOf(2), FMul(W[1], W[1])), BOf(8))
      /\ (\A i \in 1..n : W[i] = BZero) \/ Near(Dot(W, W), FI(1), BOf(8 * n))
      /\ \A i \in 2..n : Near(y[i], BZero, tol)
      /\ BCmp(y[1], BNeg(tol)) >= 0
      /\ Near(FMul(y[1], y[1]), Dot(X, X), BMul(tol, BOf(4 * big)))
      \* nothing to do only for a vector that is there already
      /\ (\A i \in 1..n : W[i] = BZero) => (x[1][1] >= 0 /\ \A i \in 2..n : x[i][1] = 0)
(* what is left of the entries below the first one *)
Cleared(t, x) == /\ Len(t) = Len(x) - 1
                 /\ \A i \in DOMAIN t : FOk(t[i]) /\ Near(FV(t[i]), BZero, BOf(4 + AbsN(x[i + 1][1])))
Rotates(c, s, a, b) == LET C == FV(c) S == FV(s) IN
   /\ Near(BAdd(FMul(C, C), FMul(S, S)), FI(1), BOf(8))
   /\ Near(BAdd(BMul(S, BOf(a)), BMul(C, BOf(b))), BZero, BOf(4 * (1 + AbsN(a) + AbsN(b))))
(* norms *)
SumSq(A) == SumN([i \in 1..Len(A) |-> SumN([j \in 1..Len(A[i]) |-> A[i][j] * A[i][j]], 1)], 1)
IsRoot(r, q, den) == LET R == FV(r) IN      \* r = sqrt(q)/den
   R[1] >= 0 /\ Near(BMul(FMul(R, R), BOf(den * den)), FI(q), BMul(TolN(2 * den * den), BOf(2 + q)))
IsRatio(r, q, den) == Near(BMul(FV(r), BOf(den)), FI(q), TolN(den))
=============================================================================
