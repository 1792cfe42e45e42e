------------------------------- MODULE Ints -------------------------------
(* The integers as a principal ideal domain (alg::commutative::PID for the signed integer
   types, bezout_identity).  The definitions below are the meaning of each operation; the
   machine is the extended Euclidean algorithm, one division per step, with the invariants
   that make its result a greatest common divisor with Bezout coefficients.              *)
EXTENDS Integers, Sequences, FiniteSets
Abs(n) == IF n < 0 THEN 0 - n ELSE n
\* Euclidean division: remainder in 0..|d|-1
Rem(n, d) == n % Abs(d)
Quo(n, d) == LET k == (n - Rem(n, d)) \div Abs(d) IN IF d < 0 THEN 0 - k ELSE k
Divides(d, n) == IF d = 0 THEN n = 0 ELSE n % Abs(d) = 0
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF a = 0 THEN Abs(b) ELSE Gcd(b % Abs(a), a)
Prime(n) == LET m == Abs(n) IN m > 1 /\ \A x \in 2..m : (x * x <= m) => m % x # 0
RECURSIVE Factors(_, _)
Factors(m, p) == IF m = 1 THEN 0 ELSE IF p * p > m THEN 1
                 ELSE IF m % p = 0 THEN 1 + Factors(m \div p, p) ELSE Factors(m, p + 1)
NPrimeFactors(n) == Factors(Abs(n), 2)
Unit(n) == IF n < 0 THEN -1 ELSE 1

CONSTANT N
VARIABLES A, B,                 \* the operands
          a, b, x1, x2, y1, y2  \* the algorithm's registers
vars == <<A, B, a, b, x1, x2, y1, y2>>
Init == /\ A \in (0 - N)..N /\ B \in (0 - N)..N /\ a = A /\ b = B
        /\ x1 = 1 /\ x2 = 0 /\ y1 = 0 /\ y2 = 1
Divide == LET q == Quo(b, a) IN
          /\ a # 0
          /\ a' = Rem(b, a) /\ b' = a
          /\ x1' = x2 - x1 * q /\ x2' = x1
          /\ y1' = y2 - y1 * q /\ y2' = y1
          /\ UNCHANGED <<A, B>>
Spec == Init /\ [][Divide]_vars /\ WF_vars(Divide)
Result == [g |-> Abs(b), x |-> Unit(b) * x2, y |-> Unit(b) * y2]
Combination == a = x1 * A + y1 * B /\ b = x2 * A + y2 * B
SameDivisors == \A d \in 1..N : (Divides(d, a) /\ Divides(d, b)) <=> (Divides(d, A) /\ Divides(d, B))
\* any answer that satisfies IsBezout is right, whatever the route
IsBezout(p, q, r) == r.g = Gcd(p, q) /\ r.g = r.x * p + r.y * q
AtEnd == a = 0 => IsBezout(A, B, Result)
DivisionOk == a # 0 => /\ b = Quo(b, a) * a + Rem(b, a)
                       /\ Rem(b, a) \in 0..(Abs(a) - 1)
GreatestOk == a = 0 => \A d \in 1..N : (Divides(d, A) /\ Divides(d, B)) => Divides(d, Result.g)
PrimeMeans == Prime(A) <=> (Abs(A) > 1 /\ {d \in 1..Abs(A) : Abs(A) % d = 0} = {1, Abs(A)})
FactorsMean == /\ Prime(A) => NPrimeFactors(A) = 1
               /\ (A # 0 /\ B # 0) => NPrimeFactors(A * B) = NPrimeFactors(A) + NPrimeFactors(B)
Terminates == <>(a = 0)
===========================================================================
