------------------------------- MODULE Spectra -------------------------------
(* Eigenvalues and the orthogonal reductions leading to them.  A list of numbers is the
   spectrum of an integer matrix iff its elementary symmetric functions are the sums of the
   principal minors; a reduction is right iff an orthogonal operator conjugates the matrix
   to it, which shows in the traces of the words in the matrix and its transpose when the
   operator itself is not returned.                                                      *)
EXTENDS Fixed, FiniteSets
RECURSIVE IPow(_, _)
IPow(a, k) == IF k = 0 THEN 1 ELSE a * IPow(a, k - 1)
MaxN(a, c) == IF a > c THEN a ELSE c
TransN(M) == [j \in 1..Len(M[1]) |-> [i \in 1..Len(M) |-> M[i][j]]]
Norm(A) == MaxN(1, MaxN(RowSum(A), RowSum(TransN(A))))       \* at least the spectral norm
NormD(A, den) == (Norm(A) \div den) + 1

(* the sums c_1, .., c_n of the principal minors *)
Idx(S) == LET RECURSIVE F(_, _) F(T, acc) == IF T = {} THEN acc ELSE LET m == CHOOSE x \in T : \A y \in T : x <= y IN F(T \ {m}, Append(acc, m)) IN F(S, <<>>)
Principal(A) == LET n == Len(A)
                    subs == {Idx(S) : S \in (SUBSET (1..n)) \ {{}}}
                    RECURSIVE Add(_)
                    Add(T) == IF T = {} THEN 0 ELSE LET s == CHOOSE x \in T : TRUE IN Det(Minor(A, s, s)) + Add(T \ {s})
                IN TLCEval([k \in 1..n |-> Add({s \in subs : Len(s) = k})])
(* the elementary symmetric functions of a list of units *)
RECURSIVE SymR(_, _, _)
SymR(x, i, acc) == IF i > Len(x) THEN acc
                   ELSE SymR(x, i + 1, TLCEval([k \in 1..Len(acc) |-> IF k = 1 THEN acc[1] ELSE BAdd(acc[k], FMul(x[i], acc[k - 1]))]))
Sym(x) == Tail(SymR(x, 1, [k \in 1..(Len(x) + 1) |-> IF k = 1 THEN FI(1) ELSE BZero]))

Ascending(x) == \A i \in 1..(Len(x) - 1) : BCmp(x[i], x[i + 1]) <= 0
(* x, in units, is the spectrum of A/den *)
IsSpectrum(x, A, den) ==
   LET n == Len(A) s == Sym(x) c == Principal(A) N == Norm(A) IN
   /\ Len(x) = n /\ Ascending(x)
   /\ \A k \in 1..n : Near(BMul(s[k], BOf(IPow(den, k))), FI(c[k]), BMul(BOf(5 * den * IPow(2, n)), BPow(BOf(N), k - 1)))
(* (A/den) v = x v for a vector of length one *)
TolR(n, N) == BOf(8 * n * (N + 1))
IsEigen(F, v, x, tol) ==
   /\ Near(Dot(v, v), FI(1), tol)
   /\ \A i \in 1..Len(v) : Near(Dot(F[i], v), FMul(x, v[i]), tol)

(* F Q = Q G for an orthogonal Q *)
Conjugates(Q, F, G, N) == LET n == Rows(F) IN
   /\ Rows(Q) = n /\ Cols(Q) = n /\ Orthogonal(Q, TolR(n, 1))
   /\ NearM(MMulF(F, Q), MMulF(Q, G), TolR(n, N))
TolW(n, N, k) == BMul(BOf(4 * k * n), BPow(BOf(N), k - 1))
RECURSIVE PowersR(_, _, _)
PowersR(F, k, acc) == IF k = 1 THEN acc ELSE PowersR(F, k - 1, Append(acc, MMulF(acc[Len(acc)], F)))
Powers(F, k) == TLCEval(PowersR(F, k, <<F>>))
SameTraces(F, G, N) == \A n \in {Rows(F)} : \A p \in {Powers(F, n)} : \A q \in {Powers(G, n)} :
   \A k \in 1..n : Near(Trace8(p[k]), Trace8(q[k]), TolW(n, N, k))
(* words of F and its transpose *)
Words(F) == LET T == TLCEval(Tp(F)) FF == TLCEval(MMulF(F, F)) FT == TLCEval(MMulF(F, T)) FFT == TLCEval(MMulF(FF, T)) IN
            TLCEval(<<F, FF, FT, MMulF(T, F), FFT, MMulF(FFT, T)>>)
WLen == <<1, 2, 2, 2, 3, 4>>
(* conjugate by an orthogonal operator that fixes the first basis vector *)
SameWords(F, G, N) == \A n \in {Rows(F)} : \A v \in {Words(F)} : \A w \in {Words(G)} :
   \A k \in 1..Len(v) : /\ Near(Trace8(v[k]), Trace8(w[k]), TolW(n, N, WLen[k]))
                        /\ Near(v[k][1][1], w[k][1][1], TolW(n, N, WLen[k]))
Small == BOf(20)
Negligible(x) == BCmp(BAbs(x), BOf(2)) <= 0
IsSmall(x) == BCmp(BAbs(x), Small) <= 0
Hessenberg(G) == \A i, j \in 1..Rows(G) : i > j + 1 => IsSmall(G[i][j])
Isolated(G) == \A i \in 1..(Rows(G) - 2) : IsSmall(G[i + 1][i]) \/ IsSmall(G[i + 2][i + 1])
QuasiTriangular(G) == Hessenberg(G) /\ Isolated(G)
Tridiagonal(G) == Hessenberg(G) /\ Hessenberg(Tp(G)) /\ NearM(G, Tp(G), Small)
(* the diagonal blocks of a quasitriangular matrix *)
Blocks(G) == TLCEval([i \in 1..Rows(G) |-> [j \in 1..Cols(G) |->
               IF i = j \/ i = j + 1 \/ (j = i + 1 /\ ~Negligible(G[j][i])) THEN G[i][j] ELSE BZero]])
(* the product of the plane rotations [[c, s], [-s, c]] in the planes (i, i+1) *)
Rotation(n, i, c, s) == TLCEval([p \in 1..n |-> [q \in 1..n |->
      IF p = q THEN (IF p \in {i, i + 1} THEN c ELSE FI(1))
      ELSE IF p = i /\ q = i + 1 THEN s ELSE IF p = i + 1 /\ q = i THEN BNeg(s) ELSE BZero]])
RECURSIVE RotationsR(_, _, _)
RotationsR(rs, i, acc) == IF i > Len(rs) THEN acc ELSE RotationsR(rs, i + 1, MMulF(acc, Rotation(Rows(acc), i, rs[i][1], rs[i][2])))
Rotations(rs, n) == RotationsR(rs, 1, Id(n))
=============================================================================
