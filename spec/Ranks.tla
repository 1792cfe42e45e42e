------------------------------ MODULE Ranks ------------------------------
(* Rank of a rational matrix and the dimensions of homology over a field.
   The machine eliminates with any choice of pivot row; whatever the choice, when it stops the number of
   pivots is the size of the largest non-vanishing minor. RankQ computes the same number through ranks
   modulo primes whose product exceeds every minor (Hadamard), so that it never needs large integers.  *)
EXTENDS Smith
VARIABLES rk, col
rvars == <<svars, rk, col>>
RECURSIVE SwapElim(_, _, _, _)
InvMod(a, p) == LET RECURSIVE P(_, _, _)
                    P(b, k, acc) == IF k = 0 THEN acc ELSE P((b * b) % p, k \div 2, IF k % 2 = 1 THEN (acc * b) % p ELSE acc)
                IN P(a % p, p - 2, 1)
\* rows: integer rows reduced modulo p; number of pivots found from column c on
SwapElim(rows, c, m, p) ==
   IF rows = <<>> \/ c > m THEN 0
   ELSE LET piv == {i \in DOMAIN rows : rows[i][c] # 0} IN
        IF piv = {} THEN SwapElim(rows, c + 1, m, p)
        ELSE LET i == CHOOSE x \in piv : \A y \in piv : x <= y
                 inv == InvMod(rows[i][c], p)
                 pr == TLCEval([j \in 1..m |-> (rows[i][j] * inv) % p])
                 rest == SubSeq(rows, 1, i - 1) \o SubSeq(rows, i + 1, Len(rows))
                 next == TLCEval([k \in DOMAIN rest |-> IF rest[k][c] = 0 THEN rest[k] ELSE
                            LET f == rest[k][c] IN TLCEval([j \in 1..m |-> (rest[k][j] + ((p - f) * pr[j])) % p])])
             IN 1 + SwapElim(next, c + 1, m, p)
RankMod(rows, m, p) == SwapElim(TLCEval([i \in DOMAIN rows |-> TLCEval([j \in 1..m |-> rows[i][j] % p])]), 1, m, p)
Primes == {46337, 46327, 46309}
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
RankZ(rows, m) == MaxOf({RankMod(rows, m, p) : p \in Primes})
\* rows of fractions: multiplying a row by a non-zero number keeps the rank
Lcm(a, b) == (a * b) \div GcdF(a, b)
RECURSIVE Den(_)
Den(row) == IF row = <<>> THEN 1 ELSE Lcm(row[1][2], Den(Tail(row)))
Cleared(M) == TLCEval([i \in 1..M.n |-> LET d == Den(M.e[i]) IN TLCEval([j \in 1..M.m |-> M.e[i][j][1] * (d \div M.e[i][j][2])])])
RankQ(M) == RankZ(Cleared(M), M.m)
\* the definition
MinorRank(M) == LET ks == {k \in 1..MinI(M.n, M.m) : \E rs \in Choices(M.n, k), cs \in Choices(M.m, k) : Minor(M, rs, cs) # 0}
                IN IF ks = {} THEN 0 ELSE MaxOf(ks)
\* homology of C_0 <- C_1 <- ... given the maps d_0 (out of C_0), d_1, ...
Betti(ms) == [k \in DOMAIN ms |-> ms[k].m - RankQ(ms[k]) - (IF k < Len(ms) THEN RankQ(ms[k + 1]) ELSE 0)]
Composable(ms) == \A k \in 1..(Len(ms) - 1) : ms[k].m = ms[k + 1].n /\ Times(ms[k], ms[k + 1]) = ZeroM(ms[k].n, ms[k + 1].m)

(* ---- the machine ---- *)
RDone == col > work.m
SkipCol == /\ \A i \in (rk + 1)..work.n : work.e[i][col] = CZero
           /\ col' = col + 1 /\ UNCHANGED <<work, rk>>
Pivot == \E i \in (rk + 1)..work.n :
   /\ work.e[i][col] # CZero
   /\ LET W == SwapR(work, rk + 1, i) f(k) == CMul(W.e[k][col], CInv(W.e[rk + 1][col]))
      IN work' = Mk(W.n, W.m, LAMBDA k, j : IF k <= rk + 1 THEN W.e[k][j] ELSE CAdd(W.e[k][j], CNeg(CMul(f(k), W.e[rk + 1][j]))))
   /\ rk' = rk + 1 /\ col' = col + 1
RNext == ~RDone /\ (SkipCol \/ Pivot) /\ UNCHANGED <<given, U, Ui, V, Vi, stage, mat, last>>
RInit == SInit /\ rk = 0 /\ col = 1
RSpec == RInit /\ [][RNext]_rvars /\ WF_rvars(RNext)
REnds == <>RDone
RResult == RDone => rk = MinorRank(given)
Same_ == rk + RankQ([n |-> work.n - rk, m |-> work.m, e |-> SubSeq(work.e, rk + 1, work.n)]) = RankQ(given)
Laws == (col = 1) => LET r == RankQ(given) A == given IN
   /\ r = MinorRank(A) /\ RankQ(Transp(A)) = r
   /\ \A p, q \in 1..A.n : p # q => RankQ(SwapR(A, p, q)) = r /\ RankQ(AddR(A, p, q, Z(2))) = r
   /\ \A p, q \in 1..A.m : p # q => RankQ(SwapC(A, p, q)) = r /\ RankQ(AddC(A, p, q, Z(-1))) = r
=============================================================================
