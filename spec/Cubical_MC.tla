------------------------------ MODULE Cubical_MC ------------------------------
(* On every graph with a depth-first numbering and few vertices: the gradient field pairs the cubes off without
   cycles, and the critical cubes with the flow of the boundary compute the homology of the whole complex. *)
EXTENDS Cubical
CONSTANTS NV, MaxTok
VARIABLES G, n, phase
vars == <<G, n, phase>>
Init == /\ \E k \in 2..NV : G \in {[n |-> k, E |-> S] : S \in SUBSET Pairs(k)}
        /\ DepthFirst(G)
        /\ n \in 1..MaxTok /\ n <= G.n
        /\ phase = "given"
Next == phase = "given" /\ phase' = "done" /\ UNCHANGED <<G, n>>
Spec == Init /\ [][Next]_vars
P == Parents(G)
(* the cubes reached from a redundant cube by one step of the flow *)
RECURSIVE Sinks(_, _)
Succs(c) == LET b == Bd(Up(P, c)) IN {y \in DOMAIN b : y # c /\ Kind(P, y) = "redundant"}
Sinks(S, succ) == \* removes cubes without successors in S until nothing changes
   LET T == {c \in S : succ[c] \cap S # {}} IN IF T = S THEN S ELSE Sinks(T, succ)
Pairing == LET C == TLCEval(Cells(G, n))
               R == TLCEval({c \in C : Kind(P, c) = "redundant"})
               K == TLCEval({c \in C : Kind(P, c) = "collapsible"})
           IN /\ \A c \in R : Up(P, c) \in K /\ Down(P, Up(P, c)) = c
              /\ \A c \in K : Down(P, c) \in R /\ Up(P, Down(P, c)) = c
              /\ Cardinality(R) = Cardinality(K)
              /\ LET succ == TLCEval([c \in R |-> Succs(c)]) IN Sinks(R, succ) = {}
Squares == \A c \in Cells(G, n) : BdOf(Bd(c)) = <<>>
Enumerated == LET F == {<<v>> : v \in 0..(G.n - 1)} \cup G.E
              IN Cells(G, n) = {c \in SUBSET F : Cardinality(c) = n /\ \A f \in c, g \in c : f # g => {f[i] : i \in DOMAIN f} \cap {g[i] : i \in DOMAIN g} = {}}
(* the flow is a chain map, and a redundant cube with nothing between the ends of its edge just slides *)
SlideOk(c) == LET A == Active(P, c) f == LeastActive(A) v == f[1] IN
   (Kind(P, c) = "redundant" /\ \A w \in Occ(c) \ {v} : w < P[v] \/ v < w)
   => Flow(P, One(c)) = Flow(P, One((c \ {f}) \cup {<<P[v]>>}))
Flowing == \A c \in Cells(G, n) : Flow(P, BdOf(Flow(P, One(c)))) = Flow(P, Bd(c)) /\ SlideOk(c)
MorseSquares == \A c \in Critical(P, Cells(G, n)) : Flow(P, BdOf(MorseBd(P, c))) = <<>>
Listed == CriticalCells(G, P, n) = Critical(P, Cells(G, n))
Faithful == LET C == TLCEval(Cells(G, n)) IN Trimmed(HomologyMorse(P, C)) = Trimmed(HomologyUdc(C))
Inv == phase = "done" => (Pairing /\ Squares /\ Flowing /\ MorseSquares /\ Listed /\ Faithful)
InvEnum == phase = "done" => ((G.n <= 4) => Enumerated)
===============================================================================
