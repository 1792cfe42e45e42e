----------------------------- MODULE Symbolic_MC -----------------------------
(* Every way to build functions in a few steps.  Beside its expansions each function has its
   expression, and the textbook rules of differentiation on expressions have to agree with
   the shift of coefficients.                                                             *)
EXTENDS Symbolic
CONSTANTS MaxFs
VARIABLE tree
vars == <<pts, deg, fs, tree>>
(* ---- expressions ---- *)
RECURSIVE Eval(_, _)
Eval(t, p) ==
   CASE t[1] = "c" -> t[2]
     [] t[1] = "x" -> p[t[2]]
     [] t[1] = "+" -> NAdd(Eval(t[2], p), Eval(t[3], p))
     [] t[1] = "*" -> NMul(Eval(t[2], p), Eval(t[3], p))
     [] t[1] = "^" -> LET u == Eval(t[2], p) e == t[3] IN
                      IF u = Zero /\ e >= 0 /\ e % 8 = 0 THEN (IF e = 0 THEN One ELSE Zero)
                      ELSE Power8(u, e)
     [] t[1] = "sin" -> SinAt(Eval(t[2], p))
     [] t[1] = "cos" -> CosAt(Eval(t[2], p))
C(q) == <<"c", q>>
RECURSIVE Rule(_, _)
Rule(t, n) ==
   CASE t[1] = "c" -> C(Zero)
     [] t[1] = "x" -> C(IF t[2] = n THEN One ELSE Zero)
     [] t[1] = "+" -> <<"+", Rule(t[2], n), Rule(t[3], n)>>
     [] t[1] = "*" -> <<"+", <<"*", Rule(t[2], n), t[3]>>, <<"*", t[2], Rule(t[3], n)>>>>
     [] t[1] = "^" -> IF t[3] = 0 THEN C(Zero)
                      ELSE <<"*", C(Lowest(t[3], 8)), <<"*", <<"^", t[2], t[3] - 8>>, Rule(t[2], n)>>>>
     [] t[1] = "sin" -> <<"*", <<"cos", t[2]>>, Rule(t[2], n)>>
     [] t[1] = "cos" -> <<"*", C(Whole(-1)), <<"*", <<"sin", t[2]>>, Rule(t[2], n)>>>>
Tree(i) == IF i >= 0 THEN tree[i + 1] ELSE <<"x", -i>>
Args == {-n : n \in 1..Dims} \cup 0..(Len(fs) - 1)
Make(f, t) == Push(f) /\ tree' = Append(tree, t)
Init == /\ pts = <<<<Zero, One>>, <<Whole(2), <<1, 4, 0>>>>, <<Whole(-1), Whole(3)>>>>
        /\ deg = 2 /\ fs = <<>> /\ tree = <<>>
Next ==
   /\ Len(fs) < MaxFs
   /\ \/ Make(Const(One), C(One))
      \/ \E a \in Args :
           \/ \E b \in Args : \/ b >= a /\ Make(FAdd(Arg(a), Arg(b)), <<"+", Tree(a), Tree(b)>>)
                              \/ b >= a /\ Make(FMul(Arg(a), Arg(b)), <<"*", Tree(a), Tree(b)>>)
                              \/ Make(FDiv(Arg(a), Arg(b)), <<"*", Tree(a), <<"^", Tree(b), -8>>>>)
           \/ \E q \in {Whole(-1), <<3, 2, 0>>} : Make(FScale(Arg(a), q), <<"*", C(q), Tree(a)>>)
           \/ \E e \in {-8, 2, 4, 16, 24} : Make(FPower(Arg(a), e), <<"^", Tree(a), e>>)
           \/ Make(FSin(Arg(a)), <<"sin", Tree(a)>>)
           \/ Make(FCos(Arg(a)), <<"cos", Tree(a)>>)
Spec == Init /\ [][Next]_vars
Close(x, y) == LET d == NAdd(x, NNeg(y)) IN Known(d) => IF Exact(d) THEN d = Zero ELSE Abs(d[1]) <= d[3]
Last == Len(fs)
(* what is known agrees with the rules, for the values and the first and second derivatives *)
Rules == Last > 0 => \A p \in DOMAIN pts : LET f == fs[Last][p] t == tree[Last] IN
   /\ Close(Value(f), Eval(t, pts[p]))
   /\ \A n \in 1..Dims :
        /\ Close(Value(JDiff(f, n)), Eval(Rule(t, n), pts[p]))
        /\ \A m \in 1..Dims : Close(Value(JDiff(JDiff(f, n), m)), Eval(Rule(Rule(t, n), m), pts[p]))
(* if the rules give an exact second derivative, then so does the expansion, for small numbers *)
Pythagoras == Last > 0 => \A p \in DOMAIN pts : LET f == fs[Last][p] s == JSin(f) c == JCos(f) q == JAdd(JMul(s, s), JMul(c, c)) IN
   \A a \in DOMAIN q : Close(q[a], IF Deg(a) = 0 THEN One ELSE Zero)
Inverse == Last > 0 => \A p \in DOMAIN pts : LET f == fs[Last][p] q == JMul(f, JPower(f, -8)) r == JPower(f, 4) s == JPower(f, 1) t == JMul(s, s) v == JMul(t, t) IN
   \A a \in DOMAIN q : Close(q[a], IF Deg(a) = 0 THEN One ELSE Zero) /\ Close(JMul(r, r)[a], f[a]) /\ Close(JMul(v, v)[a], f[a])
Decided == Last > 0 => \A p \in DOMAIN pts : LET e == Eval(tree[Last], pts[p]) IN
   Known(e) /\ Exact(e) /\ Abs(e[1]) < 10000 /\ e[2] < 10000 => Known(Value(fs[Last][p]))
===============================================================================
