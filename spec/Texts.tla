------------------------------- MODULE Texts -------------------------------
(* The printed forms of the objects of the library, as functions of their mathematical value:
   numbers with a given number of decimals, matrices, finite sets, finitely generated modules. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
RECURSIVE Join(_, _)
Join(s, sep) == IF s = <<>> THEN "" ELSE IF Len(s) = 1 THEN s[1] ELSE s[1] \o sep \o Join(Tail(s), sep)
RECURSIVE Ten(_)
Ten(p) == IF p = 0 THEN 1 ELSE 10 * Ten(p - 1)
RECURSIVE Two(_)
Two(p) == IF p = 0 THEN 1 ELSE 2 * Two(p - 1)
Size(x) == IF x < 0 THEN -x ELSE x
RECURSIVE Padded(_, _)
Padded(n, p) == IF p = 0 THEN "" ELSE Padded(n \div 10, p - 1) \o ToString(n % 10)
Minus(b) == IF b THEN "-" ELSE ""
(* m / 10^p *)
Point(m, p) == ToString(m \div Ten(p)) \o (IF p = 0 THEN "" ELSE "." \o Padded(m % Ten(p), p))
(* the texts of x = <<n, k>>, that is n / 2^k, with p decimals, rounded to the nearest (either way when in the middle) *)
Decimals(x, p) == LET q == Two(x[2]) w == Size(x[1]) * Ten(p) lo == w \div q r == w % q
                      ms == IF 2 * r < q THEN {lo} ELSE IF 2 * r > q THEN {lo + 1} ELSE {lo, lo + 1}
                  IN {Minus(x[1] < 0) \o Point(m, p) : m \in ms}
(* all of its decimals (k of them suffice), but at least one *)
RECURSIVE Trim(_, _)
Trim(m, p) == IF p > 1 /\ m % 10 = 0 THEN Trim(m \div 10, p - 1) ELSE Point(m, p)
Whole(x) == LET p == IF x[2] = 0 THEN 1 ELSE x[2] IN Minus(x[1] < 0) \o Trim(Size(x[1]) * (Ten(p) \div Two(x[2])), p)
Fraction(x) == IF x[2] = 1 THEN ToString(x[1]) ELSE ToString(x[1]) \o "/" \o ToString(x[2])
(* a matrix of the texts of its entries *)
Row(r) == "| " \o Join(r, "\t") \o " |\n"
RECURSIVE Rows(_)
Rows(s) == IF s = <<>> THEN "" ELSE Row(s[1]) \o Rows(Tail(s))
Grid(m) == "\n" \o Rows(m)
Map(m, F(_)) == [i \in DOMAIN m |-> [j \in DOMAIN m[i] |-> F(m[i][j])]]
(* a subset S of 0 .. n-1 *)
Bits(n, S) == "len = " \o ToString(n) \o ", n_elements = " \o ToString(Cardinality(S)) \o ", data = ["
              \o Join([i \in 1..n |-> IF i - 1 \in S THEN "1" ELSE "0"], ", ") \o "]"
(* R^free + the sum of the (R/d)^m for <<d, m>> in tors (d given by its text) *)
Torsion(R, t) == IF t[2] = 1 THEN R \o "_" \o t[1] ELSE "(" \o R \o "_" \o t[1] \o ")^" \o ToString(t[2])
ModuleText(R, free, tors) ==
   IF free = 0 /\ tors = <<>> THEN "0"
   ELSE Join((IF free = 0 THEN <<>> ELSE IF free = 1 THEN <<R>> ELSE <<R \o "^" \o ToString(free)>>)
             \o [i \in DOMAIN tors |-> Torsion(R, tors[i])], " + ")
============================================================================
