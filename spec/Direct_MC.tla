------------------------------ MODULE Direct_MC ------------------------------
(* Elimination with partial pivoting on an exact matrix, one row operation at a time. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Frac
CONSTANTS N, K
VARIABLES A, a, col, row, perm, sign, phase
vars == <<A, a, col, row, perm, sign, phase>>
F == INSTANCE Fixed
Init == /\ A \in [1..N -> [1..N -> (0 - K)..K]]
        /\ a = [i \in 1..N |-> [j \in 1..N |-> <<A[i][j], 1>>]]
        /\ col = 1 /\ row = 0 /\ perm = [i \in 1..N |-> i] /\ sign = 1 /\ phase = "pivot"
AbsF(x) == <<AbsI(x[1]), x[2]>>
LessF(x, y) == x[1] * y[2] < y[1] * x[2]
Best == CHOOSE p \in col..N : /\ \A k \in col..N : ~LessF(AbsF(a[p][col]), AbsF(a[k][col]))
                              /\ \A k \in col..(p - 1) : LessF(AbsF(a[k][col]), AbsF(a[p][col]))
Swapped(f, i, j) == [f EXCEPT ![i] = f[j], ![j] = f[i]]
Pivot == /\ phase = "pivot" /\ col <= N
         /\ a' = Swapped(a, col, Best) /\ perm' = Swapped(perm, col, Best)
         /\ sign' = IF Best = col THEN sign ELSE -sign
         /\ IF a[Best][col] = CZero THEN col' = col + 1 /\ UNCHANGED <<row, phase>>
            ELSE row' = col + 1 /\ phase' = "eliminate" /\ UNCHANGED col
         /\ UNCHANGED A
Eliminate == /\ phase = "eliminate" /\ row <= N
             /\ LET m == CMul(a[row][col], CInv(a[col][col])) IN
                a' = [a EXCEPT ![row] = [j \in 1..N |-> IF j < col THEN a[row][j] ELSE IF j = col THEN m
                                          ELSE CAdd(a[row][j], CNeg(CMul(m, a[col][j])))]]
             /\ row' = row + 1 /\ UNCHANGED <<A, col, perm, sign, phase>>
Next1 == /\ phase = "eliminate" /\ row > N /\ col' = col + 1 /\ phase' = "pivot" /\ UNCHANGED <<A, a, row, perm, sign>>
Next == Pivot \/ Eliminate \/ Next1
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Done == phase = "pivot" /\ col > N
Mult(i, j) == a[i][j]
RECURSIVE SumF(_, _, _)
SumF(f, i, n) == IF i > n THEN CZero ELSE CAdd(f[i], SumF(f, i + 1, n))
Bounded == \A i \in 1..N : \A j \in 1..(i - 1) : (j < col \/ (phase = "eliminate" /\ j = col /\ i < row)) => ~LessF(COne, AbsF(Mult(i, j)))
(* P A = L U *)
Factors == Done => \A i, j \in 1..N :
   <<A[perm[i]][j], 1>> = SumF([k \in 1..N |-> IF k > i \/ k > j THEN CZero ELSE IF k = i THEN a[k][j] ELSE CMul(a[i][k], a[k][j])], 1, N)
RECURSIVE ProdF(_)
ProdF(i) == IF i > N THEN COne ELSE CMul(a[i][i], ProdF(i + 1))
DetRight == Done => CMul(<<sign, 1>>, ProdF(1)) = <<F!Det(A), 1>>
NeverStuck == ~Done => ENABLED Next
Terminates == <>Done
==============================================================================
