---------------------------- MODULE TraceIO ----------------------------
(* Recorded executions of the real code: one JSON object per line.  Every scenario starts
   with a "reset" line; each further line is one public call with its arguments, its
   outcome ("ok", "panic", "hang", "crash", "obspanic"), result "ret" and the
   projection "obs" of the implementation state after the call; "nx" is the line number
   of the next scenario.  A trace module defines Step(e) (the specification's own action
   for the call plus the comparison of the recorded values) and plays the trace with

     TraceNext == Play(l, Step, ResetStep, SkipStep)

   A line that no step of the specification explains is reported and the rest of its
   scenario is skipped, so that one rejection does not hide others.                    *)
EXTENDS TLC, IOUtils, Json, Sequences, Integers, FiniteSets

Trace == ndJsonDeserialize(IOEnv.TRACE)
Rejected(e) == PrintT(<<"REJECT", e.sc, e.i>>)
Finished == PrintT(<<"DONE", Len(Trace)>>)
IsOk(e) == e.out = "ok"
IsRefused(e) == e.out = "panic"

SortedSeq(S) == LET RECURSIVE F(_, _)
                    F(T, acc) == IF T = {} THEN acc
                                 ELSE LET m == CHOOSE x \in T : \A y \in T : x <= y
                                      IN F(T \ {m}, Append(acc, m))
                IN F(S, <<>>)
(* s lists the set S in increasing order *)
Lists(s, S) == /\ Len(s) = Cardinality(S)
               /\ \A i \in DOMAIN s : s[i] \in S
               /\ \A i \in 1..(Len(s) - 1) : s[i] < s[i + 1]
Elems(s) == {s[i] : i \in DOMAIN s}
=========================================================================
