------------------------------ MODULE Texts_MC ------------------------------
(* The printed forms determine the value: of two different values of a small range, the texts differ. *)
EXTENDS Texts
CONSTANTS N, K
VARIABLES a, b, kind
vars == <<a, b, kind>>
Odd(x) == x[2] = 0 \/ x[1] % 2 = 1
Numbers == {x \in ((0 - N)..N) \X (0..K) : Odd(x)}
Ints == (-2)..12
Mats == UNION {[1..r -> [1..c -> {-1, 0, 1, 11}]] : r \in 1..2, c \in 1..2}
Sets == UNION {{<<n, S>> : S \in SUBSET (0..(n - 1))} : n \in 0..4}
Chains_ == {<<>>} \cup {<<<<d, m>>>> : d \in 2..4, m \in 1..3} \cup {<<<<d, m>>, <<d * k, j>>>> : d \in 2..3, m \in 1..2, k \in 2..3, j \in 1..2}
Mods == (0..3) \X Chains_
Dom(k) == CASE k = "number" -> Numbers [] k = "matrix" -> Mats [] k = "set" -> Sets [] k = "module" -> Mods
Text(k, x) == CASE k = "number" -> Whole(x)
                [] k = "matrix" -> Grid(Map(x, LAMBDA v : ToString(v)))
                [] k = "set" -> Bits(x[1], x[2])
                [] k = "module" -> ModuleText("Z", x[1], [i \in DOMAIN x[2] |-> <<ToString(x[2][i][1]), x[2][i][2]>>])
Init == kind \in {"number", "matrix", "set", "module"} /\ a \in Dom(kind) /\ b = a
Next == UNCHANGED kind /\ UNCHANGED a /\ b = a /\ b' \in Dom(kind)
Spec == Init /\ [][Next]_vars
Faithful == Text(kind, a) = Text(kind, b) => a = b
(* rounding to p decimals is off by at most half a unit: reading the text back *)
Read(t, p) == CHOOSE m \in 0..(N * Ten(p)) : Point(m, p) = t
Rounded == kind = "number" /\ a = b /\ a[1] >= 0 => \A p \in 0..2 : \A t \in Decimals(a, p) :
   LET m == Read(t, p) IN Size((2 * m * Two(a[2])) - (2 * a[1] * Ten(p))) <= Two(a[2])
Exact == kind = "number" /\ a = b => \A p \in {a[2]} : Cardinality(Decimals(a, p)) = 1
=============================================================================
