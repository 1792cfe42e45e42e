------------------------------ MODULE Smith ------------------------------
(* Smith normal form: a machine that holds A = given matrix, D = work matrix and the four recorded
   transformations, changes D by elementary operations only and stops when D is in normal form.
   The reduction is non-deterministic in the choice of pivot and of the operation: whatever the choice,
   the recorded transformations stay mutually inverse and U A V = D, and whenever it stops the
   diagonal is the one determined by the gcds of minors of A.                                   *)
EXTENDS Matrices
VARIABLES given, work, U, Ui, V, Vi, stage
svars == <<mat, last, given, work, U, Ui, V, Vi, stage>>
Z(x) == <<x, 1>>
At(M, i, j) == M.e[i][j][1]
Quot(a, b) == IF b > 0 THEN a \div b ELSE -(a \div (-b))
Divides(a, b) == IF a = 0 THEN b = 0 ELSE b % AbsI(a) = 0
(* ---- the postcondition ---- *)
MinI(x, y) == IF x < y THEN x ELSE y
Diagonal(M) == \A i \in 1..M.n : \A j \in 1..M.m : i # j => At(M, i, j) = 0
Chain(M) == \A i \in 1..(MinI(M.n, M.m) - 1) : Divides(At(M, i, i), At(M, i + 1, i + 1))
Normal(M) == Diagonal(M) /\ Chain(M)
Inverse(X, Y) == Times(X, Y) = IdM(X.n) /\ Times(Y, X) = IdM(X.n)
(* ---- what the diagonal has to be: gcds of minors ---- *)
RECURSIVE Det(_)
Without(rows, i) == SubSeq(rows, 1, i - 1) \o SubSeq(rows, i + 1, Len(rows))
Det(rows) == IF rows = <<>> THEN 1 ELSE
   LET RECURSIVE F(_, _, _)
       F(i, s, acc) == IF i > Len(rows) THEN acc
                       ELSE F(i + 1, -s, acc + (IF rows[i][1] = 0 THEN 0 ELSE s * rows[i][1] *
                              Det([k \in 1..(Len(rows) - 1) |-> Tail(Without(rows, i)[k])])))
   IN F(1, 1, 0)
RECURSIVE Choices(_, _)   \* increasing sequences of k numbers from 1..n
Choices(n, k) == IF k = 0 THEN {<<>>} ELSE IF n < k THEN {}
                 ELSE Choices(n - 1, k) \cup {Append(s, n) : s \in Choices(n - 1, k - 1)}
Minor(M, rs, cs) == Det([i \in DOMAIN rs |-> [j \in DOMAIN cs |-> At(M, rs[i], cs[j])]])
GcdSet(S) == LET RECURSIVE F(_, _)
                 F(T, g) == IF T = {} THEN g ELSE LET x == CHOOSE y \in T : TRUE IN F(T \ {x}, GcdF(AbsI(x), g))
             IN F(S, 0)
DetDivisor(M, k) == GcdSet({Minor(M, rs, cs) : rs \in Choices(M.n, k), cs \in Choices(M.m, k)})
RECURSIVE DiagProd(_, _)
DiagProd(M, k) == IF k = 0 THEN 1 ELSE At(M, k, k) * DiagProd(M, k - 1)
SameDivisors(A, M, upto) == \A k \in 1..upto : AbsI(DiagProd(M, k)) = DetDivisor(A, k)
(* ---- the machine ---- *)
Row(p, q, k) == /\ work' = AddR(work, p, q, Z(k)) /\ U' = AddR(U, p, q, Z(k)) /\ Ui' = AddC(Ui, q, p, Z(-k))
                /\ UNCHANGED <<given, V, Vi, stage, mat, last>>
Col(p, q, k) == /\ work' = AddC(work, p, q, Z(k)) /\ V' = AddC(V, p, q, Z(k)) /\ Vi' = AddR(Vi, q, p, Z(-k))
                /\ UNCHANGED <<given, U, Ui, stage, mat, last>>
RowSwap(p, q) == /\ work' = SwapR(work, p, q) /\ U' = SwapR(U, p, q) /\ Ui' = SwapC(Ui, p, q)
                 /\ UNCHANGED <<given, V, Vi, stage, mat, last>>
ColSwap(p, q) == /\ work' = SwapC(work, p, q) /\ V' = SwapC(V, p, q) /\ Vi' = SwapR(Vi, p, q)
                 /\ UNCHANGED <<given, U, Ui, stage, mat, last>>
Clear(s) == \A i \in 1..work.n : \A j \in 1..work.m : (i = s) # (j = s) => (i < s \/ j < s \/ At(work, i, j) = 0)
(* reduce an entry of the pivot row or column, or exchange the pivot for a smaller remainder *)
Reduce == LET s == stage p == At(work, s, s) IN
  \/ p # 0 /\ \E i \in (s + 1)..work.n : At(work, i, s) # 0 /\
       IF AbsI(At(work, i, s)) < AbsI(p) THEN RowSwap(s, i) ELSE Row(i, s, -Quot(At(work, i, s), p))
  \/ p # 0 /\ \E j \in (s + 1)..work.m : At(work, s, j) # 0 /\
       IF AbsI(At(work, s, j)) < AbsI(p) THEN ColSwap(s, j) ELSE Col(j, s, -Quot(At(work, s, j), p))
  \/ p = 0 /\ \/ /\ \A j \in s..work.m : At(work, s, j) = 0
                 /\ \E i \in (s + 1)..work.n : (\E j \in s..work.m : At(work, i, j) # 0) /\ RowSwap(s, i)
              \/ \E j \in (s + 1)..work.m : At(work, s, j) # 0 /\ ColSwap(s, j)
  \/ p # 0 /\ Clear(s) /\ \E i \in (s + 1)..work.n : \E j \in (s + 1)..work.m :
       ~Divides(p, At(work, i, j)) /\ Row(s, i, 1)
Advance == LET s == stage IN
  /\ s <= MinI(work.n, work.m) /\ Clear(s)
  /\ \/ At(work, s, s) = 0 /\ \A i \in s..work.n : \A j \in s..work.m : At(work, i, j) = 0
     \/ At(work, s, s) # 0 /\ \A i \in s..work.n : \A j \in s..work.m : Divides(At(work, s, s), At(work, i, j))
  /\ stage' = stage + 1 /\ UNCHANGED <<given, work, U, Ui, V, Vi, mat, last>>
Done == stage > MinI(work.n, work.m)
SNext == ~Done /\ (IF ENABLED Advance THEN Advance ELSE Reduce)
CONSTANTS Sizes, Lim
SInit == /\ mat = [r \in Reg |-> Unset] /\ last = [out |-> "ok", ret |-> 0]
         /\ given \in UNION {{Mk(z[1], z[2], LAMBDA i, j : Z(f[((i - 1) * z[2]) + j])) : f \in [1..(z[1] * z[2]) -> -Lim..Lim]} : z \in Sizes}
         /\ work = given /\ U = IdM(given.n) /\ Ui = IdM(given.n) /\ V = IdM(given.m) /\ Vi = IdM(given.m)
         /\ stage = 1
SSpec == SInit /\ [][SNext]_svars /\ WF_svars(SNext)
RecordedFor(A, D, u, ui, v, vi) == Times(Times(u, A), v) = D /\ Inverse(u, ui) /\ Inverse(v, vi)
Recorded == RecordedFor(given, work, U, Ui, V, Vi)
Kept == \A k \in 1..MinI(given.n, given.m) : DetDivisor(work, k) = DetDivisor(given, k)
Result == Done => Normal(work) /\ SameDivisors(given, work, MinI(given.n, given.m))
Live == ~Done => ENABLED SNext
Ends == <>Done
=============================================================================
