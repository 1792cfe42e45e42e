------------------------------ MODULE EdgePaths ------------------------------
(* Motions of tokens along the edges of a graph. A move <<a, b>> slides the token at a to b; a path is a
   sequence of steps, each a sequence of moves made at the same time. Moves along disjoint closed edges commute. *)
EXTENDS GraphOps
Flip(m) == <<m[2], m[1]>>
Ends(m) == {m[1], m[2]}
Apart(x, y) == Ends(x) \cap Ends(y) = {}
RECURSIVE Flat(_)
Flat(p) == IF p = <<>> THEN <<>> ELSE Head(p) \o Flat(Tail(p))
Rev(w) == [i \in DOMAIN w |-> Flip(w[Len(w) + 1 - i])]
-----------------------------------------------------------------------------
(* a step is legal for the occupied set S if its closed edges are pairwise disjoint edges of the graph, each
   move starts at a token and no other token is on any of them *)
StepOk(G, S, st) ==
   /\ \A i \in DOMAIN st : Has(G, st[i][1], st[i][2]) /\ st[i][1] # st[i][2] /\ st[i][1] \in S /\ st[i][2] \notin S
   /\ \A i, k \in DOMAIN st : i < k => Apart(st[i], st[k])
After(S, st) == (S \ {st[i][1] : i \in DOMAIN st}) \cup {st[i][2] : i \in DOMAIN st}
RECURSIVE Legal(_, _, _), EndOf(_, _)
Legal(G, S, p) == p = <<>> \/ (StepOk(G, S, Head(p)) /\ Legal(G, TLCEval(After(S, Head(p))), Tail(p)))
EndOf(S, p) == IF p = <<>> THEN S ELSE EndOf(TLCEval(After(S, Head(p))), Tail(p))
(* where each token goes; at is a function from tokens to vertices *)
StepTo(at, st) == [t \in DOMAIN at |-> IF \E i \in DOMAIN st : st[i][1] = at[t] THEN st[CHOOSE i \in DOMAIN st : st[i][1] = at[t]][2] ELSE at[t]]
RECURSIVE Carry(_, _)
Carry(at, p) == IF p = <<>> THEN at ELSE Carry(TLCEval(StepTo(at, Head(p))), Tail(p))
Singles(w) == [i \in DOMAIN w |-> <<w[i]>>]
-----------------------------------------------------------------------------
(* reduction: a move and its reverse cancel if everything in between commutes with them *)
Without(w, i, k) == SubSeq(w, 1, i - 1) \o SubSeq(w, i + 1, k - 1) \o SubSeq(w, k + 1, Len(w))
Cancels(w, i, k) == w[k] = Flip(w[i]) /\ \A j \in (i + 1)..(k - 1) : Apart(w[j], w[i])
(* least k that cancels with something before it, 0 if there is none *)
Partner(w, k) == LET B == {i \in 1..(k - 1) : ~Apart(w[i], w[k])} IN IF B = {} THEN 0 ELSE LET i == MaxOf(B) IN IF w[i] = Flip(w[k]) THEN i ELSE 0
RECURSIVE ReduceFrom(_, _)
ReduceFrom(w, k) == IF k > Len(w) THEN w
                    ELSE LET i == Partner(w, k) IN
                         IF i = 0 THEN ReduceFrom(w, k + 1) ELSE ReduceFrom(TLCEval(Without(w, i, k)), k - 1)
Reduced(w) == ReduceFrom(w, 1)
(* earliest steps: a move comes right after the last move before it that it does not commute with *)
RECURSIVE LevelsFrom(_, _, _)
LevelsFrom(w, k, lv) == IF k > Len(w) THEN lv
                        ELSE LET B == {lv[i] : i \in {j \in 1..(k - 1) : ~Apart(w[j], w[k])}}
                             IN LevelsFrom(w, k + 1, TLCEval(Append(lv, IF B = {} THEN 1 ELSE MaxOf(B) + 1)))
Levels(w) == LET lv == LevelsFrom(w, 1, <<>>) m == IF w = <<>> THEN 0 ELSE MaxOf({lv[i] : i \in DOMAIN lv})
             IN [k \in 1..m |-> {w[i] : i \in {j \in DOMAIN w : lv[j] = k}}]
Normal(w) == Levels(Reduced(w))
(* the steps of a path as sets, without empty steps *)
Packed(p) == LET q == SelectSeq(p, LAMBDA st : st # <<>>) IN [k \in DOMAIN q |-> {q[k][i] : i \in DOMAIN q[k]}]
-----------------------------------------------------------------------------
(* flowing to a configuration in which every token is blocked: the least unblocked token moves to its parent *)
Free(P, S) == {v \in S : v # 0 /\ P[v] \notin S}
RECURSIVE Downhill(_, _)
Downhill(P, S) == IF Free(P, S) = {} THEN <<>>
                  ELSE LET v == CHOOSE x \in Free(P, S) : \A y \in Free(P, S) : x <= y
                       IN <<<<v, P[v]>>>> \o Downhill(P, TLCEval((S \ {v}) \cup {P[v]}))
(* the loop of a one-cell: tokens vs and the edge e *)
LoopOf(P, vs, e) == Rev(Downhill(P, vs \cup {e[2]})) \o <<<<e[2], e[1]>>>> \o Downhill(P, vs \cup {e[1]})
=============================================================================
