------------------------------ MODULE BigInt ------------------------------
(* Integers of any size for TLC, whose own integers have 32 bits: a sign in {-1,0,1}
   followed by limbs in base B, least significant first and without leading zeros.       *)
EXTENDS Integers, Sequences
LOCAL B == 10000
RECURSIVE Trim(_)
Trim(m) == IF m # <<>> /\ m[Len(m)] = 0 THEN Trim(SubSeq(m, 1, Len(m) - 1)) ELSE m
LOCAL At(m, i) == IF i <= Len(m) THEN m[i] ELSE 0
LOCAL MaxI(x, y) == IF x > y THEN x ELSE y
\* magnitudes
RECURSIVE MAddR(_, _, _, _, _)
MAddR(x, y, i, c, acc) == IF i > Len(x) /\ i > Len(y)
                          THEN (IF c = 0 THEN acc ELSE Append(acc, c))
                          ELSE LET s == At(x, i) + At(y, i) + c IN MAddR(x, y, i + 1, s \div B, Append(acc, s % B))
MAdd(x, y) == MAddR(x, y, 1, 0, <<>>)
RECURSIVE MSubR(_, _, _, _, _)
MSubR(x, y, i, c, acc) == IF i > Len(x) THEN Trim(acc)
                          ELSE LET s == x[i] - At(y, i) - c IN
                               MSubR(x, y, i + 1, IF s < 0 THEN 1 ELSE 0, Append(acc, s % B))
MSub(x, y) == MSubR(x, y, 1, 0, <<>>)             \* x >= y
RECURSIVE MCmpR(_, _, _)
MCmpR(x, y, i) == IF i = 0 THEN 0 ELSE IF x[i] < y[i] THEN -1 ELSE IF x[i] > y[i] THEN 1 ELSE MCmpR(x, y, i - 1)
MCmp(x, y) == IF Len(x) < Len(y) THEN -1 ELSE IF Len(x) > Len(y) THEN 1 ELSE MCmpR(x, y, Len(x))
RECURSIVE MScale(_, _, _, _, _)
MScale(x, k, i, c, acc) == IF i > Len(x) THEN (IF c = 0 THEN acc ELSE Append(acc, c))
                           ELSE LET s == x[i] * k + c IN MScale(x, k, i + 1, s \div B, Append(acc, s % B))
RECURSIVE MMulR(_, _, _)
MMulR(x, y, i) == IF i > Len(y) THEN <<>>
                  ELSE LET r == MMulR(x, y, i + 1) IN
                       Trim(MAdd(MScale(x, y[i], 1, 0, <<>>), IF r = <<>> THEN <<>> ELSE <<0>> \o r))
MMul(x, y) == MMulR(x, y, 1)
\* signed
Mag(a) == Tail(a)
Mk(s, m) == IF m = <<>> THEN <<0>> ELSE <<s>> \o m
BNeg(a) == Mk(0 - a[1], Mag(a))
BAbs(a) == Mk(1, Mag(a))
BAdd(a, b) == IF a[1] = 0 THEN b ELSE IF b[1] = 0 THEN a
              ELSE IF a[1] = b[1] THEN Mk(a[1], MAdd(Mag(a), Mag(b)))
              ELSE LET c == MCmp(Mag(a), Mag(b)) IN
                   IF c = 0 THEN <<0>> ELSE IF c > 0 THEN Mk(a[1], MSub(Mag(a), Mag(b)))
                   ELSE Mk(b[1], MSub(Mag(b), Mag(a)))
BSub(a, b) == BAdd(a, BNeg(b))
BMul(a, b) == Mk(a[1] * b[1], MMul(Mag(a), Mag(b)))
BCmp(a, b) == IF a[1] # b[1] THEN (IF a[1] < b[1] THEN -1 ELSE 1)
              ELSE IF a[1] = 0 THEN 0 ELSE a[1] * MCmp(Mag(a), Mag(b))
BZero == <<0>>
BOne == <<1, 1>>
RECURSIVE Limbs(_)
Limbs(n) == IF n = 0 THEN <<>> ELSE <<n % B>> \o Limbs(n \div B)
BOf(n) == IF n = 0 THEN <<0>> ELSE IF n > 0 THEN <<1>> \o Limbs(n) ELSE <<-1>> \o Limbs(0 - n)
IsBig(a) == /\ a # <<>> /\ a[1] \in {-1, 0, 1}
            /\ \A i \in 2..Len(a) : a[i] \in 0..(B - 1)
            /\ IF Len(a) = 1 THEN a[1] = 0 ELSE a[1] # 0 /\ a[Len(a)] # 0
===========================================================================
