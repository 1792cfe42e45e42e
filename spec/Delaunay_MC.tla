------------------------------ MODULE Delaunay_MC ------------------------------
(* Incremental insertion (Bowyer and Watson) from a triangle with vertices at infinity, over all sequences of
   points of a small grid in general position. Vertices at infinity are -1, -2, -3. *)
EXTENDS Delaunay
CONSTANTS W, H, MaxN
VARIABLES P, T
vars == <<P, T>>
Dir == <<<<0, 5>>, <<4, -3>>, <<-4, -3>>>>
Grid == (0..W) \X (0..H)
Dot(v, w) == (v[1] * w[1]) + (v[2] * w[2])
Cross(v, w) == (v[1] * w[2]) - (v[2] * w[1])
Minus(a, b) == <<a[1] - b[1], a[2] - b[2]>>
Fin(t) == {i \in t : i > 0}
Inf(t) == {-i : i \in {j \in t : j < 0}}
Bad(t, p) ==
   LET f == Fin(t) g == Inf(t) IN
   CASE f = {} -> TRUE
     [] Cardinality(f) = 1 -> LET a == P[CHOOSE i \in f : TRUE] d == Dir[CHOOSE k \in 1..3 : k \notin g] h == Dot(d, Minus(p, a))
                              IN h < 0 \/ (h = 0 /\ Dot(p, p) < Dot(a, a))
     [] Cardinality(f) = 2 -> LET i == CHOOSE x \in f : \A y \in f : x <= y
                                  j == CHOOSE x \in f : x # i
                                  a == P[i] b == P[j]
                                  d == Dir[CHOOSE k \in g : TRUE]
                                  s0 == Cross(Minus(b, a), d)
                                  s == IF s0 = 0 THEN Cross(a, b) ELSE s0
                                  o == Cross(Minus(b, a), Minus(p, a))
                              IN IF o = 0 THEN Dot(Minus(p, a), Minus(p, b)) < 0 ELSE (o > 0) = (s > 0)
     [] OTHER -> LET x == Asc(f) IN Inside(P[x[1]], P[x[2]], P[x[3]], p)
Sides(t) == {e \in SUBSET t : Cardinality(e) = 2}
Init == P = <<>> /\ T = {{-1, -2, -3}}
Insert(p) == LET bad == {t \in T : Bad(t, p)}
                 rim == {e \in UNION {Sides(t) : t \in bad} : Cardinality({t \in bad : e \subseteq t}) = 1}
             IN T' = (T \ bad) \cup {e \cup {Len(P) + 1} : e \in rim}
Ext(p) == LET Q == Append(P, p) IN General(Q, DOMAIN Q)
Next == Len(P) < MaxN /\ \E p \in Grid : Ext(p) /\ P' = Append(P, p) /\ Insert(p)
Spec == Init /\ [][Next]_vars
S == DOMAIN P
Correct == {t \in T : Inf(t) = {}} = Triangulation(P, S)
IsTiling == Len(P) >= 3 => Tiles(P, S, Triangulation(P, S))
Counted == LET R == Triangulation(P, S) IN IsTriangulation(P, S, R) /\ \A t \in R : ~IsTriangulation(P, S, R \ {t})
Interior == ~Flat(P, S) => \A i \in S : \E t \in Triangulation(P, S) : i \in t
================================================================================
