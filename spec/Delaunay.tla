------------------------------- MODULE Delaunay -------------------------------
(* Points of the plane with integral coordinates (a sequence of pairs) and their Delaunay triangulation; for
   distinct points no four of which are on a circle it consists of the triangles whose circumcircle contains no
   further point. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, BigInt
Orient(a, b, c) == ((b[1] - a[1]) * (c[2] - a[2])) - ((b[2] - a[2]) * (c[1] - a[1]))
(* positive iff p is inside of the circle through a, b, c when these are counterclockwise *)
Det2(x, y, z, w) == (x * w) - (y * z)
InCircle(a, b, c, p) ==
   LET ax == a[1] - p[1] ay == a[2] - p[2] bx == b[1] - p[1] by == b[2] - p[2] cx == c[1] - p[1] cy == c[2] - p[2]
       an == (ax * ax) + (ay * ay) bn == (bx * bx) + (by * by) cn == (cx * cx) + (cy * cy)
   IN ((ax * Det2(by, bn, cy, cn)) - (ay * Det2(bx, bn, cx, cn))) + (an * Det2(bx, by, cx, cy))
(* the sign of InCircle for points that may be as far as a few thousand units from each other *)
BDet2(x, y, z, w) == BSub(BMul(x, w), BMul(y, z))
InCircleBig(a, b, c, p) ==
   LET ax == a[1] - p[1] ay == a[2] - p[2] bx == b[1] - p[1] by == b[2] - p[2] cx == c[1] - p[1] cy == c[2] - p[2]
       an == BOf((ax * ax) + (ay * ay)) bn == BOf((bx * bx) + (by * by)) cn == BOf((cx * cx) + (cy * cy))
       Ax == BOf(ax) Ay == BOf(ay) Bx == BOf(bx) By == BOf(by) Cx == BOf(cx) Cy == BOf(cy)
   IN BAdd(BSub(BMul(Ax, BDet2(By, bn, Cy, cn)), BMul(Ay, BDet2(Bx, bn, Cx, cn))), BMul(an, BDet2(Bx, By, Cx, Cy)))[1]
Near(p, q) == p[1] - q[1] \in -100..100 /\ p[2] - q[2] \in -100..100
SideOf(a, b, c, p) == IF Near(a, p) /\ Near(b, p) /\ Near(c, p) THEN InCircle(a, b, c, p) ELSE InCircleBig(a, b, c, p)
Inside(a, b, c, p) == IF Orient(a, b, c) > 0 THEN SideOf(a, b, c, p) > 0 ELSE SideOf(a, b, c, p) < 0
Triples(S) == {t \in SUBSET S : Cardinality(t) = 3}
Asc(t) == LET i == CHOOSE x \in t : \A y \in t : x <= y
              k == CHOOSE x \in t : \A y \in t : y <= x
          IN <<i, CHOOSE x \in t : x # i /\ x # k, k>>
(* distinct points, no four of them on a circle; there may be many on a line *)
General(P, S) == /\ \A i, j \in S : i < j => P[i] # P[j]
                 /\ \A i, j, k, m \in S : (i < j /\ j < k /\ k < m) =>
                       (InCircle(P[i], P[j], P[k], P[m]) # 0 \/ (Orient(P[i], P[j], P[k]) = 0 /\ Orient(P[i], P[j], P[m]) = 0))
Flat(P, S) == \A i, j, k \in S : (i < j /\ j < k) => Orient(P[i], P[j], P[k]) = 0
(* the triangulation of the points with indices in S, as sets of three indices *)
Triangulation(P, S) == {t \in Triples(S) : LET x == Asc(t) IN
   Orient(P[x[1]], P[x[2]], P[x[3]]) # 0 /\ \A m \in S \ t : ~Inside(P[x[1]], P[x[2]], P[x[3]], P[m])}
-----------------------------------------------------------------------------
(* what a triangulation has to be: the triangles do not overlap and fill the convex hull *)
Between(a, b, m) == Orient(a, b, m) = 0 /\ ((m[1] - a[1]) * (m[1] - b[1])) + ((m[2] - a[2]) * (m[2] - b[2])) < 0
(* the pieces between neighbouring points of the boundary of the hull *)
HullEdges(P, S) == {e \in {x \in S \X S : x[1] < x[2]} :
                      LET R == S \ {e[1], e[2]} IN
                      /\ \/ \A m \in R : Orient(P[e[1]], P[e[2]], P[m]) >= 0
                         \/ \A m \in R : Orient(P[e[1]], P[e[2]], P[m]) <= 0
                      /\ \A m \in R : ~Between(P[e[1]], P[e[2]], P[m])}
HullPoints(P, S) == {i \in S : \E e \in HullEdges(P, S) : i \in {e[1], e[2]}}
Sgn(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0
(* a line through two corners of one of the triangles has the third one and the other triangle on different sides *)
Separates(P, t, u) == \E i \in t : \E j \in t \ {i} : LET k == CHOOSE x \in t : x # i /\ x # j IN
                         \A m \in u : Sgn(Orient(P[i], P[j], P[m])) # Sgn(Orient(P[i], P[j], P[k]))
Disjoint(P, t, u) == Separates(P, t, u) \/ Separates(P, u, t)
Area2(P, t) == LET x == Asc(t) a == Orient(P[x[1]], P[x[2]], P[x[3]]) IN IF a < 0 THEN -a ELSE a
RECURSIVE SumArea(_, _)
SumArea(P, T) == IF T = {} THEN 0 ELSE LET t == CHOOSE x \in T : TRUE IN Area2(P, t) + SumArea(P, T \ {t})
(* twice the area of the hull: every hull edge seen from the first point *)
RECURSIVE SumFan(_, _, _)
SumFan(P, o, Es) == IF Es = {} THEN 0 ELSE LET e == CHOOSE x \in Es : TRUE a == Orient(P[o], P[e[1]], P[e[2]])
                                           IN (IF a < 0 THEN -a ELSE a) + SumFan(P, o, Es \ {e})
HullArea2(P, S) == LET o == CHOOSE x \in S : TRUE IN SumFan(P, o, HullEdges(P, S))
Expected(P, S) == IF Flat(P, S) THEN 0 ELSE ((2 * Cardinality(S)) - 2) - Cardinality(HullPoints(P, S))
Tiles(P, S, T) == /\ \A t, u \in T : t # u => Disjoint(P, t, u)
                  /\ SumArea(P, T) = HullArea2(P, S)
                  /\ Cardinality(T) = Expected(P, S)
(* T is the triangulation, decided by its size: every triangle belongs to it, and there are as many as a
   triangulation has (the model checker shows this to be the same) *)
Empty(P, S, t) == LET x == Asc(t) IN Orient(P[x[1]], P[x[2]], P[x[3]]) # 0 /\ \A m \in S \ t : ~Inside(P[x[1]], P[x[2]], P[x[3]], P[m])
IsTriangulation(P, S, T) ==
        /\ \A t \in T : t \subseteq S /\ Cardinality(t) = 3 /\ Empty(P, S, t)
        /\ Cardinality(T) = Expected(P, S)
=============================================================================
