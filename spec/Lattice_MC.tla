------------------------------ MODULE Lattice_MC ------------------------------
(* The reduction of Lenstra, Lenstra and Lovasz as an exact state machine on integer bases
   (columns of A), one column operation at a time.  U records the change of basis, P the
   potential d_1 d_2 .. d_{n-1} before the last step.                                    *)
EXTENDS Lattice, FiniteSets
CONSTANTS N, K, P100
VARIABLES A0, A, U, i, j, pot, last
vars == <<A0, A, U, i, j, pot, last>>
IdN == [p \in 1..N |-> [q \in 1..N |-> IF p = q THEN 1 ELSE 0]]
G(M) == [p \in 1..N |-> [q \in 1..N |-> SumN([k \in 1..N |-> M[k][p] * M[k][q]], 1)]]
LeadN(g, I) == [p \in 1..Len(I) |-> [q \in 1..Len(I) |-> g[I[p]][q]]]
D(g, k) == IF k = 0 THEN 1 ELSE Det(LeadN(g, UpTo(k)))
L(g, p, q) == Det(LeadN(g, [k \in 1..q |-> IF k = q THEN p ELSE k]))
RECURSIVE ProdD(_, _)
ProdD(g, k) == IF k = 0 THEN 1 ELSE D(g, k) * ProdD(g, k - 1)
Potential(M) == ProdD(G(M), N - 1)
Init == /\ A0 \in {M \in [1..N -> [1..N -> (0 - K)..K]] : Det(M) # 0}
        /\ A = A0 /\ U = IdN /\ i = 2 /\ j = 1 /\ pot = Potential(A0) /\ last = "start"
\* the nearest integer to l/d, halves away from zero
Round(l, d) == IF l >= 0 THEN (2 * l + d) \div (2 * d) ELSE -((d - 2 * l) \div (2 * d))
AddCol(M, p, q, c) == [k \in 1..N |-> [M[k] EXCEPT ![p] = M[k][p] - c * M[k][q]]]
SwapCol(M, p, q) == [k \in 1..N |-> [M[k] EXCEPT ![p] = M[k][q], ![q] = M[k][p]]]
SizeReduce == /\ i <= N /\ j >= 1
              /\ LET g == G(A) l == L(g, i, j) d == D(g, j) c == IF 2 * AbsN(l) <= d THEN 0 ELSE Round(l, d) IN
                 A' = AddCol(A, i, j, c) /\ U' = AddCol(U, i, j, c)
              /\ j' = j - 1 /\ pot' = Potential(A) /\ last' = "reduce" /\ UNCHANGED <<A0, i>>
\* |b*_i|^2 > (delta - mu^2) |b*_{i-1}|^2
Good(g, k) == 100 * (D(g, k) * D(g, k - 2) + L(g, k, k - 1) * L(g, k, k - 1)) > P100 * D(g, k - 1) * D(g, k - 1)
Advance == /\ i <= N /\ j = 0 /\ Good(G(A), i)
           /\ i' = i + 1 /\ j' = i /\ pot' = Potential(A) /\ last' = "advance" /\ UNCHANGED <<A0, A, U>>
Swap == /\ i <= N /\ j = 0 /\ ~Good(G(A), i)
        /\ A' = SwapCol(A, i, i - 1) /\ U' = SwapCol(U, i, i - 1)
        /\ i' = (IF i > 2 THEN i - 1 ELSE 2) /\ j' = i' - 1
        /\ pot' = Potential(A) /\ last' = "swap" /\ UNCHANGED A0
Next == SizeReduce \/ Advance \/ Swap
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Done == i > N
SameLattice == /\ AbsN(Det(U)) = 1
               /\ \A p, q \in 1..N : SumN([k \in 1..N |-> A0[p][k] * U[k][q]], 1) = A[p][q]
\* what lies before the working index stays reduced
Prefix == \A p \in 2..N : (p < i => LET g == G(A) IN /\ \A q \in 1..(p - 1) : 2 * AbsN(L(g, p, q)) <= D(g, q)
                                                     /\ Good(g, p))
Decreases == /\ (last = "swap" => 100 * Potential(A) <= P100 * pot)
             /\ (last # "swap" => Potential(A) = pot)
Finally == Done => Reduced(A, P100)
\* the first vector is at most 2^((n-1)/2) times a shortest one (delta >= 3/4)
Norm2(v) == SumN([k \in 1..N |-> v[k] * v[k]], 1)
Short == (Done /\ P100 >= 75) => \A c \in [1..N -> (0 - 2)..2] :
   LET v == [k \in 1..N |-> SumN([q \in 1..N |-> A[k][q] * c[q]], 1)] IN
   (\A k \in 1..N : c[k] = 0) \/ Norm2([k \in 1..N |-> A[k][1]]) <= (IF N = 2 THEN 2 ELSE 4) * Norm2(v)
Terminates == <>Done
===============================================================================
