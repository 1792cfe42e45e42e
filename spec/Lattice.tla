------------------------------- MODULE Lattice -------------------------------
(* Reduced bases (of the columns of an integer matrix) in the sense of Lenstra, Lenstra and
   Lovasz, in integers only: with the Gram determinants d_j = |b*_1|^2 .. |b*_j|^2 and
   l_ij = d_j mu_ij, size reduction is 2 |l_ij| <= d_j and the Lovasz condition for
   delta = p/100 is 100 (d_i d_{i-2} + l_{i,i-1}^2) >= p d_{i-1}^2.                      *)
EXTENDS Fixed
NCols(A) == Len(A[1])
GramB(A) == TLCEval([i \in 1..NCols(A) |-> [j \in 1..NCols(A) |-> SumB([k \in 1..Len(A) |-> BMul(BOf(A[k][i]), BOf(A[k][j]))])]])
Lead(G, I) == TLCEval([p \in 1..Len(I) |-> [q \in 1..Len(I) |-> G[I[p]][q]]])
UpTo(j) == [k \in 1..j |-> k]
DG(G, j) == IF j = 0 THEN BOne ELSE DetB(Lead(G, UpTo(j)))
\* d_j mu_ij: the Gram determinant of b_1..b_j with b_i in the place of b_j on one side
LG(G, i, j) == DetB(Lead(G, [k \in 1..j |-> IF k = j THEN i ELSE k]))
BAtMost(x, y) == BCmp(x, y) <= 0
\* both up to one part in a million, for bases found with doubles
SizeReduced(G, i, j) == BAtMost(BMul(BOf(2000000), BAbs(LG(G, i, j))), BMul(BOf(1000001), DG(G, j)))
Lovasz(G, i, p) == BAtMost(BMul(BOf(p * 1000000), BMul(DG(G, i - 1), DG(G, i - 1))),
                           BMul(BOf(100000100), BAdd(BMul(DG(G, i), DG(G, i - 2)), BMul(LG(G, i, i - 1), LG(G, i, i - 1)))))
Reduced(A, p) == LET G == GramB(A) n == NCols(A) IN
   /\ \A i \in 2..n : \A j \in 1..(i - 1) : SizeReduced(G, i, j)
   /\ \A i \in 2..n : Lovasz(G, i, p)
Independent(A) == DG(GramB(A), NCols(A))[1] = 1
(* C = A U for an integer matrix U of determinant one or minus one *)
Rebased(A, C, U) ==
   LET n == NCols(A) IN
   /\ Len(U) = n /\ \A i \in 1..n : Len(U[i]) = n
   /\ \A i \in 1..Len(A) : \A j \in 1..n : SumB([k \in 1..n |-> BMul(BOf(A[i][k]), BOf(U[k][j]))]) = BOf(C[i][j])
   /\ BAbs(DetB(TLCEval([i \in 1..n |-> [j \in 1..n |-> BOf(U[i][j])]]))) = BOne
==============================================================================
