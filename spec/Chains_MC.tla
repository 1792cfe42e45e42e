---------------------------- MODULE Chains_MC ----------------------------
(* the elimination of Chains against the definition by minors *)
EXTENDS Ranks
Ch == INSTANCE Chains
Sparse(A) == [j \in 1..A.m |-> LET sup == {i \in 1..A.n : At(A, i, j) # 0} IN [i \in sup |-> At(A, i, j)]]
RECURSIVE ProdUp(_, _)
ProdUp(d, k) == IF k = 0 THEN 1 ELSE d[k] * ProdUp(d, k - 1)
CInit == RInit /\ work = given
CNext == UNCHANGED rvars
CSpec == CInit /\ [][CNext]_rvars
Agrees == LET d == Ch!ElemDivs(Sparse(given)) IN
   /\ \A k \in 1..(Len(d) - 1) : d[k + 1] % d[k] = 0
   /\ \A k \in DOMAIN d : ProdUp(d, k) = DetDivisor(given, k)
   /\ \A k \in (Len(d) + 1)..MinI(given.n, given.m) : DetDivisor(given, k) = 0
MCSizes == {<<1, 3>>, <<2, 2>>, <<3, 1>>}
MCSizes3 == {<<2, 3>>}
=========================================================================
