------------------------------ MODULE Spectra_MC ------------------------------
(* The control of a QR iteration with deflation on a Hessenberg matrix of size N, and the
   criteria of module Spectra on exact integer matrices.

   sub[i] tells whether the i-th subdiagonal entry is still present.  The active block ends
   at the last pair of adjacent entries that are present and starts after the last entry
   above it that is gone; a step works on that block only.  An ordinary step may leave the
   block as it is (stuck) until a step with exceptional shifts, every Period-th, moves it. *)
EXTENDS Spectra
CONSTANTS N, Period, K
VARIABLES sub, steps, stuck, done, A, D
vars == <<sub, steps, stuck, done, A, D>>
\* q: the number of rows at the end that are finished, or N
QOf(s) == LET S == {i \in 0..(N - 3) : s[N - i - 1] /\ s[N - i - 2]}
          IN IF S = {} THEN N ELSE CHOOSE i \in S : \A j \in S : i <= j
POf(s, q) == LET S == {i \in 1..(N - q - 1) : ~s[i]} IN IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : i >= j
Inside(q, p) == {i \in 1..(N - 1) : i > p /\ i < N - q}
Mats == [1..N -> [1..N -> (0 - K)..K]]
Init == /\ sub \in (IF K = 0 THEN [1..(N - 1) -> BOOLEAN] ELSE {<<>>}) /\ steps = 0 /\ stuck \in (IF K = 0 THEN BOOLEAN ELSE {FALSE}) /\ done = FALSE
        /\ A \in IF K = 0 THEN {[i \in 1..N |-> [j \in 1..N |-> 0]]}
              ELSE IF N = 2 THEN Mats ELSE {M \in Mats : \A i \in 1..N : M[i][i] = 0 /\ M[N][1] = 0}
        /\ D \in IF K = 0 THEN {[i \in 1..N |-> 0]} ELSE [1..N -> (0 - K)..K]
Step == /\ ~done
        /\ LET q == QOf(sub) p == POf(sub, q) IN
           IF q = N THEN done' = TRUE /\ UNCHANGED <<sub, steps, stuck>>
           ELSE /\ steps' = (steps + 1) % Period /\ done' = FALSE
                /\ IF stuck THEN UNCHANGED sub /\ stuck' = (steps' # 0)
                   ELSE \E Z \in (SUBSET Inside(q, p)) \ {{}} :
                           sub' = [i \in 1..(N - 1) |-> sub[i] /\ i \notin Z] /\ stuck' \in BOOLEAN
        /\ UNCHANGED <<A, D>>
Next == Step
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
\* the active block has at least three rows and no gap
BlockRight == ~done => LET q == QOf(sub) p == POf(sub, q) IN q < N => ((N - q) - p > 2 /\ \A i \in Inside(q, p) : sub[i])
Finished3 == done => \A i \in 1..(N - 2) : ~(sub[i] /\ sub[i + 1])
Terminates == <>done
Never == FALSE /\ UNCHANGED vars

(* the criteria: an upper triangular matrix with diagonal D, conjugated by signed permutations *)
Tri(M, d) == TLCEval([i \in 1..N |-> [j \in 1..N |-> IF i = j THEN d[i] ELSE IF i < j THEN M[i][j] ELSE 0]])
Sorted(d) == LET RECURSIVE G(_, _)
                 G(T, acc) == IF T = {} THEN acc
                              ELSE LET m == CHOOSE x \in T : \A y \in T : (d[x] < d[y]) \/ (d[x] = d[y] /\ x <= y)
                                   IN G(T \ {m}, Append(acc, d[m]))
             IN G(1..N, <<>>)
Shift(M) == TLCEval([i \in 1..N |-> [j \in 1..N |-> LET s == IF i = 1 THEN -1 ELSE 1 t == IF j = 1 THEN -1 ELSE 1
                                            IN s * t * M[(i % N) + 1][(j % N) + 1]]])
FixFirst(M) == TLCEval([i \in 1..N |-> [j \in 1..N |-> LET g(k) == IF k = 1 THEN 1 ELSE N + 2 - k
                                                    s == IF i = 2 THEN -1 ELSE 1 t == IF j = 2 THEN -1 ELSE 1
                                                IN s * t * M[g(i)][g(j)]]])
Fd(x) == LET y == TLCEval(x) IN TLCEval([i \in 1..Len(y) |-> FI(y[i])])
Sound == K > 0 => LET T == Tri(A, D) IN
   /\ IsSpectrum(Fd(Sorted(D)), T, 1) /\ IsSpectrum(Fd(Sorted(D)), Shift(T), 1)
   /\ SameTraces(MI(A, 1), MI(Shift(A), 1), Norm(A))
   /\ SameWords(MI(A, 1), MI(FixFirst(A), 1), Norm(A))
\* a list with another value in it is told apart
Exact == K > 0 => \A i \in 1..N :
   LET d == [D EXCEPT ![i] = @ + 1] IN ~IsSpectrum(Fd(Sorted(d)), Tri(A, D), 1)
===============================================================================
