------------------------------ MODULE Simplicial ------------------------------
(* Simplicial complexes. What a complex is: the set of its non-empty faces. How the code keeps it: the
   maximal simplices only; the second is shown to refine the first. A face is a set of vertex numbers. *)
EXTENDS Chains
CONSTANT Reg
VARIABLES faces, maxi, last
vars == <<faces, maxi, last>>
NonEmptySub(s) == SUBSET s \ {{}}
Down(m) == UNION {NonEmptySub(s) : s \in m}
Vertices(F) == UNION F
OfDim(F, d) == {s \in F : Cardinality(s) = d + 1}
MaxS(S) == CHOOSE x \in S : \A y \in S : y <= x
DimOf(F) == IF F = {} THEN -1 ELSE MaxS({Cardinality(s) : s \in F}) - 1
RECURSIVE Grow(_, _)
Grow(E, S) == LET T == S \cup UNION {s \in E : s \cap S # {}} IN IF T = S THEN S ELSE Grow(E, T)
Component(F, v) == Grow(TLCEval({s \in F : Cardinality(s) = 2}), {v})
Connected(F) == F = {} \/ LET v == CHOOSE v \in Vertices(F) : TRUE IN Component(F, v) = Vertices(F)
Components(F) == {Component(F, v) : v \in Vertices(F)}
(* ---- chains: a k-simplex has its vertices in increasing order, faces in alternating signs ---- *)
PosOf(s, v) == Cardinality({w \in s : w < v})
BoundaryCol(s, idx) == [i \in {idx[s \ {v}] : v \in s} |->
                          LET v == CHOOSE v \in s : idx[s \ {v}] = i IN IF PosOf(s, v) % 2 = 0 THEN 1 ELSE -1]
\* bases of all degrees as sequences, and the boundary maps of degrees 1..dim
Bases(F) == TLCEval([k \in 1..(DimOf(F) + 1) |-> SetToSeq(OfDim(F, k - 1))])
Index(b) == TLCEval([s \in {b[i] : i \in DOMAIN b} |-> CHOOSE i \in DOMAIN b : b[i] = s])
Maps(B) == TLCEval([k \in 1..(Len(B) - 1) |-> LET ix == Index(B[k]) IN TLCEval([j \in DOMAIN B[k + 1] |-> BoundaryCol(B[k + 1][j], ix)])])
Homology(F) == LET B == Bases(F) M == Maps(B) IN
               HomologyOf([k \in DOMAIN B |-> Len(B[k])], TLCEval([k \in DOMAIN M |-> ElemDivs(M[k])]))
RECURSIVE Euler(_, _)
Euler(f, k) == IF k = 0 THEN 0 ELSE (IF k % 2 = 1 THEN f[k] ELSE -f[k]) + Euler(f, k - 1)
(* ---- calls ---- *)
Say(x) == UNCHANGED <<faces, maxi>> /\ last' = [out |-> "ok", ret |-> x]
Set(r, F, m) == faces' = [faces EXCEPT ![r] = F] /\ maxi' = [maxi EXCEPT ![r] = m] /\ last' = [out |-> "ok", ret |-> 0]
AttachMax(m, V, s) == LET m1 == m \cup {{v} : v \in s \ V}
                      IN IF \E x \in m1 : s \subseteq x THEN m1 ELSE {x \in m1 : ~(x \subseteq s)} \cup {s}
New(r) == Set(r, {}, {})
ZeroSkel(r, S) == Set(r, {{v} : v \in S}, {{v} : v \in S})
Attach(r, s) == Set(r, faces[r] \cup NonEmptySub(s), AttachMax(maxi[r], Vertices(faces[r]), s))
-----------------------------------------------------------------------------
Init == faces = [r \in Reg |-> {}] /\ maxi = [r \in Reg |-> {}] /\ last = [out |-> "ok", ret |-> 0]
CONSTANT NV
Next == \E r \in Reg, s \in NonEmptySub(1..NV) : Attach(r, s)
Spec == Init /\ [][Next]_vars
(* the maximal simplices represent the complex *)
Refines == \A r \in Reg : /\ Down(maxi[r]) = faces[r]
                          /\ \A x, y \in maxi[r] : x \subseteq y => x = y
(* counting by inclusion and exclusion over the maximal simplices, as the code does *)
RECURSIVE Choose(_, _)
Choose(n, k) == IF k > n THEN 0 ELSE IF k = 0 THEN 1 ELSE (Choose(n - 1, k - 1) * n) \div k
RECURSIVE InterAll(_)
InterAll(S) == LET x == CHOOSE y \in S : TRUE IN IF S = {x} THEN x ELSE x \cap InterAll(S \ {x})
RECURSIVE SumOver(_, _)
SumOver(S, f) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN f[x] + SumOver(S \ {x}, f)
InclExcl(m, d) == LET S == SUBSET m \ {{}} f == [T \in S |-> (IF Cardinality(T) % 2 = 1 THEN 1 ELSE -1) * Choose(Cardinality(InterAll(T)), d + 1)]
                  IN SumOver(S, f)
Counts == \A r \in Reg : \A d \in 0..NV : InclExcl(maxi[r], d) = Cardinality(OfDim(faces[r], d))
(* connectivity by joining maximal simplices that meet *)
RECURSIVE JoinAll(_, _)
JoinAll(m, J) == LET K == J \cup UNION {x \in m : x \cap J # {}} IN IF K = J THEN J ELSE JoinAll(m, K)
Joins == \A r \in Reg : maxi[r] = {} \/ (LET x == CHOOSE y \in maxi[r] : TRUE IN (JoinAll(maxi[r], x) = Vertices(faces[r])) = Connected(faces[r]))
(* chain complex and homology *)
Complex == \A r \in Reg : faces[r] # {} =>
   LET B == Bases(faces[r]) M == Maps(B) h == Homology(faces[r]) IN
   /\ \A k \in 1..(Len(M) - 1) : ComposeZero(M[k], M[k + 1])
   /\ h[1].free = Cardinality(Components(faces[r])) /\ h[1].tors = <<>>
   /\ Euler([k \in DOMAIN B |-> Len(B[k])], Len(B)) = Euler([k \in DOMAIN h |-> h[k].free], Len(h))
   /\ \A k \in DOMAIN h : h[k].free >= 0
(* a complex with an apex has the homology of a point *)
Cone == \A r \in Reg : faces[r] # {} =>
   LET C == faces[r] \cup {s \cup {0} : s \in faces[r]} \cup {{0}} IN Trimmed(Homology(C)) = <<[free |-> 1, tors |-> <<>>]>>
(* and attaching in any order gives the same faces *)
OrderFree == \A r \in Reg : \A x, y \in maxi[r] :
   AttachMax(AttachMax({}, {}, x), x, y) = AttachMax(AttachMax({}, {}, y), y, x)
=============================================================================
