------------------------------- MODULE Fixed -------------------------------
(* Real numbers recorded to eight decimals, as big integers counting units of 10^-8, and
   matrices of them.  A recorded double x arrives as <<floor(x), 8 decimals of the rest>>.  *)
EXTENDS BigInt, TLC
FOk(p) == /\ Len(p) = 2 /\ p[1] \in -2000000000..2000000000 /\ p[2] \in 0..99999999
Shift8(a) == IF a[1] = 0 THEN a ELSE <<a[1], 0, 0>> \o Tail(a)
Drop8(a) == IF Len(a) <= 3 THEN BZero ELSE Mk(a[1], SubSeq(a, 4, Len(a)))     \* towards zero
FV(p) == BAdd(Shift8(BOf(p[1])), BOf(p[2]))
FI(n) == Shift8(BOf(n))
FMul(a, b) == Drop8(BMul(a, b))
Near(a, b, tol) == BCmp(BAbs(BSub(a, b)), tol) <= 0
RECURSIVE SumBR(_, _, _)
SumBR(f, i, acc) == IF i > Len(f) THEN acc ELSE SumBR(f, i + 1, BAdd(acc, f[i]))
SumB(f) == SumBR(f, 1, BZero)
RECURSIVE BPow(_, _)
BPow(a, k) == IF k = 0 THEN BOne ELSE BMul(a, BPow(a, k - 1))

\* matrices of units
Rows(A) == Len(A)
Cols(A) == Len(A[1])
MOk(M) == \A i \in DOMAIN M : \A j \in DOMAIN M[i] : FOk(M[i][j])
MShape(M, n, m) == Len(M) = n /\ \A i \in 1..n : Len(M[i]) = m
MV(M) == TLCEval([i \in 1..Len(M) |-> [j \in 1..Len(M[i]) |-> FV(M[i][j])]])
(* integers over a power of two *)
MI(M, den) == TLCEval([i \in 1..Len(M) |-> [j \in 1..Len(M[i]) |-> BMul(BOf(M[i][j]), BOf(100000000 \div den))]])
Id(n) == [i \in 1..n |-> [j \in 1..n |-> IF i = j THEN FI(1) ELSE BZero]]
Tp(A) == TLCEval([j \in 1..Cols(A) |-> [i \in 1..Rows(A) |-> A[i][j]]])
Dot(x, y) == Drop8(SumB([k \in 1..Len(x) |-> BMul(x[k], y[k])]))
Col(A, j) == [i \in 1..Rows(A) |-> A[i][j]]
MMulF(A0, C0) == LET A == TLCEval(A0) C == TLCEval(Tp(C0)) IN
                 TLCEval([i \in 1..Len(A) |-> [j \in 1..Len(C) |-> Dot(A[i], C[j])]])
NearM(A, C, tol) == /\ Rows(A) = Rows(C) /\ Cols(A) = Cols(C)
                    /\ \A i \in 1..Rows(A) : \A j \in 1..Cols(A) : Near(A[i][j], C[i][j], tol)
Trace8(A) == SumB([i \in 1..Rows(A) |-> A[i][i]])
Orthogonal(Q, tol) == Rows(Q) = Cols(Q) /\ NearM(MMulF(Tp(Q), Q), Id(Rows(Q)), tol)

\* exact facts about matrices of (machine) integers
AbsN(x) == IF x < 0 THEN -x ELSE x
Minor(A, I, J) == [i \in 1..Len(I) |-> [j \in 1..Len(J) |-> A[I[i]][J[j]]]]
RECURSIVE DetR(_, _, _, _)
\* expansion along row r, over the columns not yet used (in increasing order)
DetR(A, r, cs, k) == IF cs = <<>> THEN 1 ELSE IF k > Len(cs) THEN 0
   ELSE LET rest == SubSeq(cs, 1, k - 1) \o SubSeq(cs, k + 1, Len(cs))
            a == A[r][cs[k]]
        IN (IF a = 0 THEN 0 ELSE (IF k % 2 = 1 THEN a ELSE -a) * DetR(A, r + 1, rest, 1)) + DetR(A, r, cs, k + 1)
Det(A) == DetR(A, 1, [i \in 1..Len(A) |-> i], 1)
RECURSIVE DetBR(_, _, _, _)
DetBR(A, r, cs, k) == IF cs = <<>> THEN BOne ELSE IF k > Len(cs) THEN BZero
   ELSE LET rest == SubSeq(cs, 1, k - 1) \o SubSeq(cs, k + 1, Len(cs))
            a == IF k % 2 = 1 THEN A[r][cs[k]] ELSE BNeg(A[r][cs[k]])
        IN BAdd(IF a[1] = 0 THEN BZero ELSE BMul(a, DetBR(A, r + 1, rest, 1)), DetBR(A, r, cs, k + 1))
DetB(A) == DetBR(A, 1, [i \in 1..Len(A) |-> i], 1)
RECURSIVE SumN(_, _)
SumN(f, i) == IF i > Len(f) THEN 0 ELSE f[i] + SumN(f, i + 1)
RowSum(A) == LET s == [i \in 1..Len(A) |-> SumN([j \in 1..Len(A[i]) |-> AbsN(A[i][j])], 1)]
             IN CHOOSE x \in {s[i] : i \in 1..Len(A)} : \A i \in 1..Len(A) : s[i] <= x
=============================================================================
