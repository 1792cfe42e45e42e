------------------------------- MODULE Symbolic -------------------------------
(* Smooth functions of several variables built step by step from constants and coordinates
   (analysis::AtomicSmoothFn).  A function is known here through its Taylor coefficients at a
   few points, up to total degree k: a partial derivative is a shift of the coefficients, and
   sums, products, powers and elementary functions act on them by the rules of power series.
   The value of a function at a point is its coefficient of degree zero.

   Numbers are exact fractions <<n, d, 0>>, or approximations <<n, 1000, e>> standing for
   n/1000 with an error of at most e/1000 (they come in with the sine and cosine of integers
   other than 0), or <<0, 0, 0>>: not defined, or too large for the checker.               *)
EXTENDS Integers, Sequences, FiniteSets
S == 1000
Big == 1000000000
Abs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE GcdN(_, _)
GcdN(a, b) == IF b = 0 THEN a ELSE GcdN(b, a % b)
None == <<0, 0, 0>>
Whole(n) == <<n, 1, 0>>
Zero == Whole(0)
One == Whole(1)
Known(x) == x[2] # 0
Exact(x) == x[2] # 0 /\ x[3] = 0
Fits(a, b) == a = 0 \/ b = 0 \/ Abs(a) <= Big \div Abs(b)      \* a * b stays within bounds
(* the numbers n/d with d # 0 and gcd (n, d) known to be g *)
Lowest(n, d) == LET g == GcdN(Abs(n), Abs(d)) s == IF d < 0 THEN -1 ELSE 1 IN <<s * (n \div g), s * (d \div g), 0>>
Floor(n, d) == IF n >= 0 THEN n \div d ELSE -((-n + d - 1) \div d)
(* in thousandths, rounded down *)
Milli(x) == LET w == Floor(x[1], x[2]) IN IF x[2] = S THEN x[1]
            ELSE (w * S) + (((x[1] - (w * x[2])) * S) \div x[2])
CanMilli(x) == x[2] = S \/ (Fits(Floor(x[1], x[2]), S) /\ Fits(x[2], S))
Approx(x) == IF x[3] > 0 THEN x ELSE IF ~CanMilli(x) THEN None
             ELSE <<Milli(x), S, IF x[2] \in {1, S} THEN 0 ELSE 1>>
Bounded(x) == IF x[3] > 200 THEN None ELSE x
NAdd(x, y) ==
   IF ~Known(x) \/ ~Known(y) THEN None
   ELSE IF x[3] = 0 /\ y[3] = 0
   THEN LET g == GcdN(x[2], y[2]) IN
        IF Fits(2 * Abs(x[1]), y[2] \div g) /\ Fits(2 * Abs(y[1]), x[2] \div g) /\ Fits(x[2], y[2] \div g)
        THEN Lowest((x[1] * (y[2] \div g)) + (y[1] * (x[2] \div g)), x[2] * (y[2] \div g)) ELSE None
   ELSE LET a == Approx(x) b == Approx(y) IN
        IF ~Known(a) \/ ~Known(b) \/ Abs(a[1]) > Big \div 4 \/ Abs(b[1]) > Big \div 4 THEN None
        ELSE Bounded(<<a[1] + b[1], S, a[3] + b[3]>>)
NMul(x, y) ==
   IF ~Known(x) \/ ~Known(y) THEN None
   ELSE IF x = Zero \/ y = Zero THEN Zero
   ELSE IF x[3] = 0 /\ y[3] = 0
   THEN LET g == GcdN(Abs(x[1]), y[2]) h == GcdN(Abs(y[1]), x[2]) IN
        IF Fits(x[1] \div g, y[1] \div h) /\ Fits(x[2] \div h, y[2] \div g)
        THEN <<(x[1] \div g) * (y[1] \div h), (x[2] \div h) * (y[2] \div g), 0>> ELSE None
   ELSE LET a == Approx(x) b == Approx(y) IN
        IF ~Known(a) \/ ~Known(b) THEN None
        ELSE IF ~Fits(a[1], b[1]) \/ ~Fits(Abs(a[1]) + S, b[3] + 1) \/ ~Fits(Abs(b[1]) + S, a[3] + 1) THEN None
        ELSE Bounded(<<Floor(a[1] * b[1], S), S, (((Abs(a[1]) + S) * b[3]) \div S) + (((Abs(b[1]) + S) * a[3]) \div S) + 2>>)
NNeg(x) == IF Known(x) THEN <<-x[1], x[2], x[3]>> ELSE None
NInv(x) == IF ~Exact(x) \/ x[1] = 0 THEN None ELSE Lowest(x[2], x[1])
RECURSIVE NPow(_, _)
NPow(x, e) == IF e = 0 THEN One ELSE IF e < 0 THEN NPow(NInv(x), -e) ELSE NMul(x, NPow(x, e - 1))
(* the square root of a square *)
Root(x) == LET R(n) == {r \in 0..150 : r * r = n} IN
           IF ~Exact(x) \/ x[1] <= 0 \/ R(x[1]) = {} \/ R(x[2]) = {} THEN None
           ELSE <<CHOOSE r \in R(x[1]) : TRUE, CHOOSE r \in R(x[2]) : TRUE, 0>>
SinTable == <<841, 909, 141, -757, -959, -279, 657, 989, 412>>      \* rounded
CosTable == <<540, -416, -990, -654, 284, 960, 754, -146, -911>>
SinAt(x) == IF ~Exact(x) \/ x[2] # 1 \/ Abs(x[1]) > 9 THEN None ELSE IF x[1] = 0 THEN Zero
            ELSE IF x[1] > 0 THEN <<SinTable[x[1]], S, 1>> ELSE <<-SinTable[-x[1]], S, 1>>
CosAt(x) == IF ~Exact(x) \/ x[2] # 1 \/ Abs(x[1]) > 9 THEN None ELSE IF x[1] = 0 THEN One
            ELSE <<CosTable[Abs(x[1])], S, 1>>
(* v (an integer, in thousandths, to the nearest) is a faithful rendering of x *)
Renders(v, x) == Known(x) /\ CanMilli(x) => v \in Milli(x) - x[3] - 1 .. Milli(x) + x[3] + 1

(* ---- Taylor expansions: functions from the multi-indices of total degree at most k ---- *)
RECURSIVE Deg(_)
Deg(a) == IF a = <<>> THEN 0 ELSE a[1] + Deg(Tail(a))
RECURSIVE Idx(_, _)
Idx(d, k) == IF d = 0 THEN {<<>>} ELSE {<<i>> \o a : i \in 0..k, a \in Idx(d - 1, k)}
Indices(d, k) == {a \in Idx(d, k) : Deg(a) <= k}
Origin(d) == [i \in 1..d |-> 0]
Unit(d, n) == [i \in 1..d |-> IF i = n THEN 1 ELSE 0]
Minus(a, b) == [i \in DOMAIN a |-> a[i] - b[i]]
Plus(a, b) == [i \in DOMAIN a |-> a[i] + b[i]]
Under(a) == {b \in [DOMAIN a -> 0..Deg(a)] : \A i \in DOMAIN a : b[i] <= a[i]}
RECURSIVE SumOver(_, _)
SumOver(f, T) == IF T = {} THEN Zero ELSE LET x == CHOOSE x \in T : TRUE IN NAdd(f[x], SumOver(f, T \ {x}))
Dim(f) == Len(CHOOSE a \in DOMAIN f : TRUE)
JConst(d, k, v) == [a \in Indices(d, k) |-> IF a = Origin(d) THEN v ELSE Zero]
JVar(d, k, p, n) == [a \in Indices(d, k) |-> IF a = Origin(d) THEN p[n] ELSE IF a = Unit(d, n) THEN One ELSE Zero]
Both(f, g) == (DOMAIN f) \cap (DOMAIN g)
JAdd(f, g) == [a \in Both(f, g) |-> NAdd(f[a], g[a])]
JScale(f, q) == [a \in DOMAIN f |-> NMul(q, f[a])]
JMul(f, g) == [a \in Both(f, g) |-> LET U == Under(a) IN SumOver([b \in U |-> NMul(f[b], g[Minus(a, b)])], U)]
Value(f) == f[Origin(Dim(f))]
Order(f) == LET D == {Deg(a) : a \in DOMAIN f} IN CHOOSE m \in D : \A x \in D : x <= m
(* composition with a function of one variable with Taylor coefficients c[1], ..., c[k + 1] *)
After(f, c) ==
   LET o == Origin(Dim(f)) h == [f EXCEPT ![o] = Zero]
       K(v) == [a \in DOMAIN f |-> IF a = o THEN v ELSE Zero]
       RECURSIVE Horner(_)
       Horner(i) == IF i = Len(c) THEN K(c[i]) ELSE [JMul(Horner(i + 1), h) EXCEPT ![o] = c[i]]     \* h[o] is 0
   IN Horner(1)
(* Exponents are counted in eighths.  The binomial coefficient (e/8 choose i) *)
RECURSIVE Choose8(_, _)
Choose8(e, i) == IF i = 0 THEN One ELSE NMul(Choose8(e, i - 1), Lowest(e - (8 * (i - 1)), 8 * i))
(* u to the power e/8, for u # 0 *)
Power8(u, e) == IF e % 8 = 0 THEN NPow(u, e \div 8) ELSE IF e % 4 = 0 THEN NPow(Root(u), e \div 4)
                ELSE IF e % 2 = 0 THEN NPow(Root(Root(u)), e \div 2) ELSE NPow(Root(Root(Root(u))), e)
(* the power e/8 *)
JPower(f, e) ==
   LET u == Value(f)
       C(i) == LET b == Choose8(e, i) x == e - (8 * i) IN
               IF b = Zero THEN Zero
               ELSE IF u = Zero /\ x <= 0 THEN (IF x = 0 THEN b ELSE None)
               ELSE NMul(b, Power8(u, x))
   IN After(f, [i \in 1..(Order(f) + 1) |-> C(i - 1)])
Quarter == <<1, 1, 2, 6, 24>>
JSin(f) == LET u == Value(f) s == SinAt(u) c == CosAt(u) v == <<s, c, NNeg(s), NNeg(c)>> IN
           After(f, [i \in 1..(Order(f) + 1) |-> NMul(v[((i - 1) % 4) + 1], Lowest(1, Quarter[i]))])
JCos(f) == LET u == Value(f) s == SinAt(u) c == CosAt(u) v == <<c, NNeg(s), NNeg(c), s>> IN
           After(f, [i \in 1..(Order(f) + 1) |-> NMul(v[((i - 1) % 4) + 1], Lowest(1, Quarter[i]))])
JDiff(f, n) == LET u == Unit(Dim(f), n) IN
               [a \in {b \in DOMAIN f : Plus(b, u) \in DOMAIN f} |-> NMul(Whole(a[n] + 1), f[Plus(a, u)])]

(* ---- the machine: a growing list of functions, each with its expansions at the points ---- *)
VARIABLES pts,   \* the points, as tuples of numbers
          deg,   \* the degree kept for the coordinates
          fs     \* the functions: sequences of expansions, one for each point
At(p) == DOMAIN p
Dims == Len(pts[1])
(* an argument: a function made before (0, 1, ...), or a coordinate (-1, -2, ...) *)
Arg(i) == IF i >= 0 THEN fs[i + 1] ELSE [p \in DOMAIN pts |-> JVar(Dims, deg, pts[p], -i)]
Const(v) == [p \in DOMAIN pts |-> JConst(Dims, deg, v)]
FAdd(f, g) == [p \in DOMAIN pts |-> JAdd(f[p], g[p])]
FScale(f, q) == [p \in DOMAIN pts |-> JScale(f[p], q)]
FMul(f, g) == [p \in DOMAIN pts |-> JMul(f[p], g[p])]
FPower(f, e) == [p \in DOMAIN pts |-> JPower(f[p], e)]
FSin(f) == [p \in DOMAIN pts |-> JSin(f[p])]
FCos(f) == [p \in DOMAIN pts |-> JCos(f[p])]
FDiff(f, n) == [p \in DOMAIN pts |-> JDiff(f[p], n)]
FDiv(f, g) == FMul(f, FPower(g, -8))
RECURSIVE FSum(_)
FSum(s) == IF s = <<>> THEN Const(Zero) ELSE FAdd(Arg(s[1]), FSum(Tail(s)))
RECURSIVE FProduct(_)
FProduct(s) == IF s = <<>> THEN Const(One) ELSE FMul(Arg(s[1]), FProduct(Tail(s)))
Push(f) == fs' = Append(fs, f) /\ UNCHANGED <<pts, deg>>
===============================================================================
