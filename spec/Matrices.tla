---------------------------- MODULE Matrices ----------------------------
(* A register file of matrices with exact entries, the views into them and their algebra.
   A matrix is [n, m, e]: e is the sequence of its n rows of m entries each.
   A view is a rectangle of a matrix, possibly transposed: [ok, r0, c0, n, m, t] covers rows
   r0+1..r0+n and columns c0+1..c0+m; ok is FALSE when some step of the nest is out of range. *)
EXTENDS Frac, Sequences, FiniteSets, TLC
CONSTANT Reg
VARIABLES mat, last
vars == <<mat, last>>
Unset == [n |-> 0, m |-> 0, e |-> <<>>]
Mk(n, m, F(_, _)) == [n |-> n, m |-> m, e |-> TLCEval([i \in 1..n |-> TLCEval([j \in 1..m |-> F(i, j)])])]

(* ---- views ---- *)
From(r) == IF r.f \in {"r", "rf", "ri", "i"} THEN r.a ELSE 0
Until(r, size) == CASE r.f \in {"r", "rt"} -> r.b
                    [] r.f \in {"ri", "rti"} -> r.b + 1
                    [] r.f = "i" -> r.a + 1
                    [] OTHER -> size
Fits(r, size) == From(r) <= Until(r, size) /\ Until(r, size) <= size
Whole(M) == [ok |-> TRUE, r0 |-> 0, c0 |-> 0, n |-> M.n, m |-> M.m, t |-> FALSE]
Rows(V) == IF V.t THEN V.m ELSE V.n
Cols(V) == IF V.t THEN V.n ELSE V.m
Narrow(V, s) == \* one step of a nest: a transposition, or a range of rows and of columns
   IF ~V.ok THEN V
   ELSE IF s.k = "t" THEN [V EXCEPT !.t = ~V.t]
   ELSE IF ~Fits(s.r, Rows(V)) \/ ~Fits(s.c, Cols(V)) THEN [V EXCEPT !.ok = FALSE]
   ELSE LET rs == From(s.r) rn == Until(s.r, Rows(V)) - rs
            cs == From(s.c) cn == Until(s.c, Cols(V)) - cs
        IN IF V.t THEN [V EXCEPT !.r0 = V.r0 + cs, !.n = cn, !.c0 = V.c0 + rs, !.m = rn]
           ELSE [V EXCEPT !.r0 = V.r0 + rs, !.n = rn, !.c0 = V.c0 + cs, !.m = cn]
RECURSIVE Nest(_, _)
Nest(V, steps) == IF steps = <<>> THEN V ELSE Nest(Narrow(V, Head(steps)), Tail(steps))
View(M, steps) == Nest(Whole(M), steps)
Entry(M, V, i, j) == IF V.t THEN M.e[V.r0 + j][V.c0 + i] ELSE M.e[V.r0 + i][V.c0 + j]
Read(M, V) == Mk(Rows(V), Cols(V), LAMBDA i, j : Entry(M, V, i, j))
(* M with the viewed rectangle replaced by W *)
Put(M, V, W) == LET In(x, y) == x > V.r0 /\ x <= V.r0 + V.n /\ y > V.c0 /\ y <= V.c0 + V.m
                    At(x, y) == IF V.t THEN W.e[y - V.c0][x - V.r0] ELSE W.e[x - V.r0][y - V.c0]
                IN Mk(M.n, M.m, LAMBDA x, y : IF In(x, y) THEN At(x, y) ELSE M.e[x][y])

(* ---- algebra ---- *)
Transp(A) == Mk(A.m, A.n, LAMBDA i, j : A.e[j][i])
Same(A, B) == A.n = B.n /\ A.m = B.m
Plus(A, B) == Mk(A.n, A.m, LAMBDA i, j : CAdd(A.e[i][j], B.e[i][j]))
Minus(A, B) == Mk(A.n, A.m, LAMBDA i, j : CAdd(A.e[i][j], CNeg(B.e[i][j])))
Scaled(A, k) == Mk(A.n, A.m, LAMBDA i, j : CMul(A.e[i][j], k))
RECURSIVE DotUpTo(_, _, _, _, _)
DotUpTo(A, B, i, j, k) == IF k = 0 THEN CZero ELSE CAdd(CMul(A.e[i][k], B.e[k][j]), DotUpTo(A, B, i, j, k - 1))
Times(A, B) == Mk(A.n, B.m, LAMBDA i, j : DotUpTo(A, B, i, j, A.m))
ZeroM(n, m) == Mk(n, m, LAMBDA i, j : CZero)
IdM(n) == Mk(n, n, LAMBDA i, j : IF i = j THEN COne ELSE CZero)
SwapR(A, p, q) == Mk(A.n, A.m, LAMBDA i, j : A.e[IF i = p THEN q ELSE IF i = q THEN p ELSE i][j])
SwapC(A, p, q) == Mk(A.n, A.m, LAMBDA i, j : A.e[i][IF j = p THEN q ELSE IF j = q THEN p ELSE j])
AddR(A, p, q, k) == Mk(A.n, A.m, LAMBDA i, j : IF i = p THEN CAdd(A.e[p][j], CMul(k, A.e[q][j])) ELSE A.e[i][j])
AddC(A, p, q, k) == Mk(A.n, A.m, LAMBDA i, j : IF j = p THEN CAdd(A.e[i][p], CMul(k, A.e[i][q])) ELSE A.e[i][j])

(* ---- calls ---- *)
Set(r, M) == mat' = [mat EXCEPT ![r] = M] /\ last' = [out |-> "ok", ret |-> 0]
Say(x) == UNCHANGED mat /\ last' = [out |-> "ok", ret |-> x]
Refuse == UNCHANGED mat /\ last' = [out |-> "panic", ret |-> 0]
Guard(ok, A) == IF ok THEN A ELSE Refuse

FromRows(r, rows) == Guard(rows # <<>> /\ rows[1] # <<>> /\ \A i \in DOMAIN rows : Len(rows[i]) = Len(rows[1]),
                           Set(r, [n |-> Len(rows), m |-> Len(rows[1]), e |-> rows]))
Zeros(r, n, m) == Guard(n > 0 /\ m > 0, Set(r, ZeroM(n, m)))
Ident(r, n) == Guard(n > 0, Set(r, IdM(n)))
ReadView(a, s) == LET V == View(mat[a], s) IN Guard(V.ok, Say(Read(mat[a], V)))
Get(a, s, i, j) == LET V == View(mat[a], s) IN
                   Guard(V.ok /\ i < Rows(V) /\ j < Cols(V), Say(Entry(mat[a], V, i + 1, j + 1)))
(* change the viewed entries of r by the function G of their old content *)
Change(r, s, ok(_), G(_)) == LET V == View(mat[r], s) IN
                             IF ~V.ok THEN Refuse ELSE
                             LET W == Read(mat[r], V) IN Guard(ok(W), Set(r, Put(mat[r], V, G(W))))
PutEntry(r, s, i, j, x) == Change(r, s, LAMBDA W : i < W.n /\ j < W.m,
     LAMBDA W : Mk(W.n, W.m, LAMBDA p, q : IF p = i + 1 /\ q = j + 1 THEN x ELSE W.e[p][q]))
SwapRows(r, s, p, q) == Change(r, s, LAMBDA W : W.m = 0 \/ (p < W.n /\ q < W.n), LAMBDA W : IF W.m = 0 THEN W ELSE SwapR(W, p + 1, q + 1))
SwapCols(r, s, p, q) == Change(r, s, LAMBDA W : W.n = 0 \/ (p < W.m /\ q < W.m), LAMBDA W : IF W.n = 0 THEN W ELSE SwapC(W, p + 1, q + 1))
RowOp(r, s, p, q, k) == Change(r, s, LAMBDA W : p < W.n /\ q < W.n, LAMBDA W : AddR(W, p + 1, q + 1, k))
ColOp(r, s, p, q, k) == Change(r, s, LAMBDA W : p < W.m /\ q < W.m, LAMBDA W : AddC(W, p + 1, q + 1, k))
ScaleAs(r, s, k) == Change(r, s, LAMBDA W : TRUE, LAMBDA W : Scaled(W, k))
Write(r, s, a, sa) == LET X == View(mat[a], sa) IN
   IF ~X.ok THEN Refuse ELSE
   LET Y == Read(mat[a], X) IN Change(r, s, LAMBDA W : Same(W, Y), LAMBDA W : Y)
Two(a, sa, b, sb, ok(_, _), A(_, _)) ==
   LET X == View(mat[a], sa) Y == View(mat[b], sb) IN
   IF ~X.ok \/ ~Y.ok THEN Refuse
   ELSE LET P == Read(mat[a], X) Q == Read(mat[b], Y) IN Guard(ok(P, Q), A(P, Q))
Add(r, a, sa, b, sb) == Two(a, sa, b, sb, Same, LAMBDA P, Q : Set(r, Plus(P, Q)))
Sub(r, a, sa, b, sb) == Two(a, sa, b, sb, Same, LAMBDA P, Q : Set(r, Minus(P, Q)))
Mul(r, a, sa, b, sb) == Two(a, sa, b, sb, LAMBDA P, Q : P.m = Q.n, LAMBDA P, Q : Set(r, Times(P, Q)))
Dot(a, sa, b, sb) == Two(a, sa, b, sb, LAMBDA P, Q : P.n = 1 /\ Q.m = 1 /\ P.m = Q.n,
                         LAMBDA P, Q : Say(IF P.m = 0 THEN CZero ELSE Times(P, Q).e[1][1]))
Eq(a, sa, b, sb) == Two(a, sa, b, sb, LAMBDA P, Q : TRUE, LAMBDA P, Q : Say(P = Q))
Scale(r, a, s, k) == LET V == View(mat[a], s) IN Guard(V.ok, Set(r, Scaled(Read(mat[a], V), k)))
Transpose(r, a) == Set(r, Transp(mat[a]))
Copy(r, a, s) == LET V == View(mat[a], s) IN Guard(V.ok, Set(r, Read(mat[a], V)))

-----------------------------------------------------------------------------
Init == mat = [r \in Reg |-> Unset] /\ last = [out |-> "ok", ret |-> 0]

(* Bounded instance for TLC: two registers of 2 x 2 matrices, all nests of up to two views. *)
Range2 == {[f |-> "full", a |-> 0, b |-> 0], [f |-> "i", a |-> 1, b |-> 0], [f |-> "r", a |-> 0, b |-> 1], [f |-> "rf", a |-> 2, b |-> 0]}
Step2 == {[k |-> "t"]} \cup {[k |-> "v", r |-> x, c |-> y] : x, y \in Range2}
Nests == {<<>>} \cup {<<s>> : s \in Step2}
Deep == Nests \cup {<<s, t>> : s, t \in Step2}
Small(M) == \A i \in 1..M.n : \A j \in 1..M.m : AbsI(M.e[i][j][1]) <= 2
Straight(s) == \A i \in DOMAIN s : s[i].k # "t"
SmallInit == mat \in [Reg -> {Mk(2, 2, LAMBDA i, j : IF i = 1 /\ j = 2 THEN COne ELSE CZero), IdM(2)}]
             /\ last = [out |-> "ok", ret |-> 0]
Next == \E r, a \in Reg, s \in {x \in Nests : Straight(x)} :
  /\ \/ \E p, q \in 0..1 : \/ SwapRows(r, s, p, q) \/ SwapCols(r, s, p, q)
                           \/ RowOp(r, s, p, q, <<-1, 1>>) \/ ColOp(r, s, p, q, COne) \/ PutEntry(r, s, p, q, COne)
     \/ Write(r, s, a, s) \/ ScaleAs(r, s, <<-1, 1>>)
     \/ Transpose(r, a) \/ Mul(r, r, <<>>, a, <<>>) \/ Add(r, r, <<>>, a, <<>>) \/ Sub(r, r, <<>>, a, s)
  /\ \A x \in Reg : Small(mat'[x]) /\ mat'[x].n = 2 /\ mat'[x].m = 2
Spec == SmallInit /\ [][Next]_vars
ViewV == mat
(* a nest denotes a rectangle: what is read through it is what was put through it, and
   nothing outside the rectangle changes *)
Lens == \A a \in Reg : \A s \in Deep :
   LET V == View(mat[a], s) IN V.ok =>
      LET W == Mk(Rows(V), Cols(V), LAMBDA i, j : <<7 + i + (3 * j), 1>>) M == Put(mat[a], V, W) IN
      /\ Read(M, V) = W
      /\ Put(mat[a], V, Read(mat[a], V)) = mat[a]
      /\ Cardinality({<<i, j>> \in (1..2) \X (1..2) : M.e[i][j] # mat[a].e[i][j]}) = Rows(V) * Cols(V)
Algebra == \A a, b \in Reg : LET A == mat[a] B == mat[b] IN
   /\ Transp(Times(A, B)) = Times(Transp(B), Transp(A))
   /\ Minus(Plus(A, B), B) = A
   /\ Times(IdM(2), A) = A /\ Times(A, IdM(2)) = A
   /\ AddR(A, 1, 2, <<-1, 1>>) = Times(AddR(IdM(2), 1, 2, <<-1, 1>>), A)
   /\ SwapC(A, 1, 2) = Times(A, SwapC(IdM(2), 1, 2))
=============================================================================
