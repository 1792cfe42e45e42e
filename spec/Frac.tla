---------------------------- MODULE Frac ----------------------------
(* Exact fractions <<n, d>> in lowest terms with d > 0, for values that fit the checker's integers. *)
EXTENDS Integers
RECURSIVE GcdF(_, _)
GcdF(a, b) == IF b = 0 THEN a ELSE GcdF(b, a % b)
AbsI(x) == IF x < 0 THEN -x ELSE x
Fr(n, d) == IF d = 1 THEN <<n, 1>> ELSE
            LET g == GcdF(AbsI(n), AbsI(d)) s == IF d < 0 THEN -1 ELSE 1
            IN <<s * (n \div g), s * (d \div g)>>
CAdd(x, y) == Fr((x[1] * y[2]) + (y[1] * x[2]), x[2] * y[2])
CMul(x, y) == Fr(x[1] * y[1], x[2] * y[2])
CNeg(x) == <<-x[1], x[2]>>
CInv(x) == Fr(x[2], x[1])
CZero == <<0, 1>>
COne == <<1, 1>>
=====================================================================
