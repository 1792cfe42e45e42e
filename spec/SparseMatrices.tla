---------------------------- MODULE SparseMatrices ----------------------------
(* A register file of sparse matrices next to the dense ones.  A sparse matrix is its size and
   the entries that its entry function defines: a function from positions (row, column), both
   from 0, to values.  A defined entry may hold the value zero.                              *)
EXTENDS Matrices
CONSTANT SReg
VARIABLES sp
svars == <<sp, mat, last>>
SUnset == [n |-> 0, m |-> 0, at |-> [p \in {} |-> CZero]]
Least(S) == CHOOSE x \in S : \A y \in S : x <= y
RECURSIVE Increasing(_)
Increasing(S) == IF S = {} THEN <<>> ELSE <<Least(S)>> \o Increasing(S \ {Least(S)})

STransp(A) == [n |-> A.m, m |-> A.n, at |-> [p \in {<<q[2], q[1]>> : q \in DOMAIN A.at} |-> A.at[<<p[2], p[1]>>]]]
RowOf(A, i) == LET js == Increasing({p[2] : p \in {q \in DOMAIN A.at : q[1] = i}}) IN [k \in DOMAIN js |-> <<js[k], A.at[<<i, js[k]>>]>>]
ColOf(A, j) == RowOf(STransp(A), j)
Dense(A) == Mk(A.n, A.m, LAMBDA i, j : IF <<i - 1, j - 1>> \in DOMAIN A.at THEN A.at[<<i - 1, j - 1>>] ELSE CZero)

SSet(r, A) == sp' = [sp EXCEPT ![r] = A] /\ UNCHANGED mat /\ last' = [out |-> "ok", ret |-> 0]
SBuild(r, n, m, es) == SSet(r, [n |-> n, m |-> m,
      at |-> [p \in {<<es[k][1], es[k][2]>> : k \in DOMAIN es} |-> LET k == CHOOSE x \in DOMAIN es : <<es[x][1], es[x][2]>> = p IN es[k][3]]])
STranspose(r, a) == SSet(r, STransp(sp[a]))
Rows_(a, i) == UNCHANGED sp /\ Say(RowOf(sp[a], i))
Cols_(a, j) == UNCHANGED sp /\ Say(ColOf(sp[a], j))
EqDense(a, b) == UNCHANGED sp /\ Say(Dense(sp[a]) = mat[b])
Product(r, A, B) == UNCHANGED sp /\ IF A.m # B.n THEN Refuse ELSE Set(r, Times(A, B))
SMulS(r, a, b) == Product(r, Dense(sp[a]), Dense(sp[b]))
SMulD(r, a, b) == Product(r, Dense(sp[a]), mat[b])
DMulS(r, a, b) == Product(r, mat[a], Dense(sp[b]))

-----------------------------------------------------------------------------
SInit == sp = [r \in SReg |-> SUnset] /\ Init
(* Bounded instance: all sparse matrices of up to 2 x 2 entries in 0..2, undefined entries included. *)
Pos == (0..1) \X (0..1)
Vals == {CZero, COne, <<2, 1>>}
SSmall == /\ \E n, m \in 1..2, d \in SUBSET Pos : \E f \in [d -> Vals] :
                sp = [r \in SReg |-> [n |-> n, m |-> m, at |-> [p \in {q \in d : q[1] < n /\ q[2] < m} |-> f[p]]]]
          /\ mat = [r \in Reg |-> IdM(2)] /\ last = [out |-> "ok", ret |-> 0]
SNext == \E r, a \in SReg, x \in Reg : STranspose(r, a) \/ SMulS(x, a, r) \/ SMulD(x, a, x) \/ DMulS(x, x, a) \/ EqDense(a, x)
SBound == \A r \in Reg : \A i \in 1..mat[r].n : \A j \in 1..mat[r].m : mat[r].e[i][j][1] <= 4
SSpec == SSmall /\ [][SNext /\ SBound']_svars
SView == <<sp, mat>>
(* the two iterators list the same entries, and they are all of them *)
BothWays == \A a \in SReg : LET A == sp[a] IN
   /\ UNION {{<<i, t[1], t[2]>> : t \in {RowOf(A, i)[k] : k \in DOMAIN RowOf(A, i)}} : i \in 0..1}
      = {<<p[1], p[2], A.at[p]>> : p \in DOMAIN A.at}
   /\ UNION {{<<t[1], j, t[2]>> : t \in {ColOf(A, j)[k] : k \in DOMAIN ColOf(A, j)}} : j \in 0..1}
      = {<<p[1], p[2], A.at[p]>> : p \in DOMAIN A.at}
   /\ STransp(STransp(A)) = A
   /\ Dense(STransp(A)) = Transp(Dense(A))
   /\ \A i \in 0..1 : \A k \in 1..(Len(RowOf(A, i)) - 1) : RowOf(A, i)[k][1] < RowOf(A, i)[k + 1][1]
===============================================================================
