---------------------------- MODULE Multigraphs_MC ----------------------------
EXTENDS Multigraphs
CONSTANTS NN, MaxLen, MaxTok, Wts
VARIABLES ps, cnt, w
vars == <<ps, cnt, w>>
\* the counters as the code keeps them: all pairs at first, then one less for each exception
Init == ps = <<>> /\ cnt = [loops |-> 0, minus |-> 0, minusU |-> 0] /\ w = <<>>
Push(a, b) == /\ ps' = Append(ps, <<a, b>>)
              /\ LET seen == \E k \in DOMAIN ps : {ps[k][1], ps[k][2]} = {a, b} IN
                 cnt' = IF a = b THEN [loops |-> cnt.loops + 1, minus |-> cnt.minus + 1, minusU |-> cnt.minusU + 1]
                        ELSE [cnt EXCEPT !.minusU = @ + (IF seen THEN 1 ELSE 0)]
Next == Len(ps) < MaxLen /\ \E a, b \in 1..NN : Push(ToString(a), ToString(b)) /\ \E x \in Wts : w' = Append(w, x)
Spec == Init /\ [][Next]_vars
Counters == /\ cnt.loops = Loops(ps) /\ Len(ps) - cnt.minus = NonLoops(ps) /\ Len(ps) - cnt.minusU = Distinct2(ps)
            /\ LET f == Mult(ps) IN SumF(f, DOMAIN f) = Len(ps)
AllOf(S) == LET RECURSIVE F(_, _)
                F(T, acc) == IF T = {} THEN acc ELSE LET x == CHOOSE y \in T : TRUE IN F(T \ {x}, Append(acc, x))
            IN F(S, <<>>)
Sub(n) == LET A == Arcs(ps, n) vs == TLCEval(AllOf(SubVertices(A, ps)))
              ix == TLCEval([v \in {vs[i] : i \in DOMAIN vs} |-> (CHOOSE i \in DOMAIN vs : vs[i] = v) - 1])
          IN TLCEval([n |-> Len(vs), E |-> {Und(ix[x[1][x[2]]], ix[x[1][x[2] + 1]]) : x \in {x \in A \X (1..(n + 2)) : x[2] < Len(x[1])}}])
InputConnected == LET ns == Names(ps) IN Connected([n |-> Len(ns), E |-> {e \in {Und(NumberOf(ns, ps[k][1]) - 1, NumberOf(ns, ps[k][2]) - 1) : k \in DOMAIN ps} : e[1] < e[2]}])
RECURSIVE Dist(_, _, _, _, _)
Dist(G, done, cur, t, d) == IF t \in cur THEN d ELSE IF cur = {} THEN 1000
                            ELSE LET dn == TLCEval(done \cup cur) IN Dist(G, dn, TLCEval((UNION {Nbrs(G, v) : v \in cur}) \ dn), t, d + 1)
\* enough subdivided for n tokens: cycles have n + 1 edges at least, arcs between essential vertices n - 1
Sufficient == (ps # <<>> /\ InputConnected) => \A n \in 2..MaxTok : LET G == Sub(n) IN
   /\ Cardinality(G.E) = NonLoops(ps) * (MidsOf(n, FALSE) + 1) + Loops(ps) * (MidsOf(n, TRUE) + 1)
   /\ G.n = Len(Names(ps)) + NonLoops(ps) * MidsOf(n, FALSE) + Loops(ps) * MidsOf(n, TRUE)
   /\ Connected(G)
   /\ \A e \in G.E : e[1] < e[2] /\ Dist([G EXCEPT !.E = @ \ {e}], {}, {e[1]}, e[2], 0) >= n
   /\ LET X == {v \in 0..(G.n - 1) : Degree(G, v) # 2} IN \A x, y \in X : x < y => Dist(G, {}, {x}, y, 0) >= n - 1
Weighted == LET es == TLCEval([k \in {k \in DOMAIN ps : TRUE} |-> <<ps[k][1], ps[k][2], w[k]>>]) IN
   (\A k \in DOMAIN ps : ps[k][1] # ps[k][2]) =>
     LET W == WMatrix(es) L == Laplacian(W) IN
     /\ \A i, k \in DOMAIN W : W[i][k] = W[k][i] /\ L[i][k] = L[k][i] /\ W[i][i] = 0
     /\ \A i \in DOMAIN W : RowSum(L, i) = 0
=============================================================================
