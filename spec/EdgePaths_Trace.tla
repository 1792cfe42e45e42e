---------------------------- MODULE EdgePaths_Trace ----------------------------
EXTENDS EdgePaths, TraceIO
VARIABLES regs, l        \* register -> [p: path, G: graph, s: occupied vertices at its start]
vars == <<regs, l>>
GivenG(e) == TLCEval([n |-> e.nv, E |-> {<<e.edges[i][1], e.edges[i][2]>> : i \in DOMAIN e.edges}])
Occupied(c) == UNION {{c[i][k] : k \in DOMAIN c[i]} : i \in DOMAIN c}
EdgeOf(c) == c[CHOOSE i \in DOMAIN c : Len(c[i]) = 2]
(* the word of moves that the result has to be equivalent to, and where it starts *)
Expected(e) == TLCEval(
  CASE e.op = "loop" -> LET G == GivenG(e) T == Parents(G) x == EdgeOf(e.c) vs == Occupied(e.c) \ {x[1], x[2]} S == vs \cup {x[2]} IN
                        [w |-> LoopOf(T, vs, x), G |-> G, s |-> EndOf(S, Singles(Downhill(T, S)))]
    [] e.op = "tobase" -> LET G == GivenG(e) S == Occupied(e.c) d == Downhill(Parents(G), S) IN
                        IF e.to THEN [w |-> d, G |-> G, s |-> S] ELSE [w |-> Rev(d), G |-> G, s |-> EndOf(S, Singles(d))]
    [] e.op = "moves" -> [w |-> Flat(e.steps), G |-> GivenG(e), s |-> {e.start[i] : i \in DOMAIN e.start}]
    [] e.op = "trivial" -> [w |-> <<>>, G |-> GivenG(e), s |-> {e.start[i] : i \in DOMAIN e.start}]
    [] e.op = "reduce" -> [regs[e.q] EXCEPT !.w = Flat(@)]
    [] e.op = "inverse" -> LET x == regs[e.q] IN [w |-> Rev(Flat(x.w)), G |-> x.G, s |-> EndOf(x.s, x.w)]
    [] e.op = "compose" -> LET x == regs[e.q] y == regs[e.p] IN [w |-> Flat(x.w) \o Flat(y.w), G |-> x.G, s |-> x.s])
(* with one critical configuration, loops are based there *)
AtBase(e, F) == (e.op = "loop" /\ e.based) => F.s = 0..(Len(e.c) - 1) /\ EndOf(F.s, e.ret) = F.s
Explains(F, e) ==
  /\ e.out = "ok" /\ e.obs = 0
  /\ IF e.op = "perm" THEN e.ret = [i \in 1..e.n |-> Carry([t \in 0..(e.n - 1) |-> t], regs[e.r].w)[i - 1]]
     ELSE /\ Legal(F.G, F.s, e.ret) /\ AtBase(e, F)
          /\ IF e.op \in {"moves", "trivial"} THEN e.ret = (IF e.op = "moves" THEN e.steps ELSE <<>>)
             ELSE IF e.op = "compose" THEN Normal(Flat(e.ret)) = Normal(F.w)
             ELSE Packed(e.ret) = Normal(F.w) /\ Len(Flat(e.ret)) = Len(Reduced(F.w))
TraceInit == regs = [r \in {} |-> 0] /\ l = 1
Put(r, x) == [y \in DOMAIN regs \cup {r} |-> IF y = r THEN x ELSE regs[y]]
TraceNext ==
  \/ /\ l <= Len(Trace)
     /\ LET e == Trace[l] IN
        IF e.op = "reset" THEN l' = l + 1 /\ regs' = [r \in {} |-> 0]
        ELSE LET F == IF e.op = "perm" THEN <<>> ELSE Expected(e) IN
             IF Explains(F, e) THEN l' = l + 1 /\ (IF e.op = "perm" THEN UNCHANGED regs ELSE regs' = Put(e.r, [F EXCEPT !.w = e.ret]))
             ELSE Rejected(e) /\ l' = e.nx /\ UNCHANGED regs
  \/ l = Len(Trace) + 1 /\ Finished /\ l' = l + 1 /\ UNCHANGED regs
TraceSpec == TraceInit /\ [][TraceNext]_vars
===============================================================================
