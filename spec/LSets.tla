------------------------------ MODULE LSets ------------------------------
(* Labelled sets (util::LabeledSet): a fixed list of distinct labels and the set of those
   that were added.  Iteration is in the order of the label list; an unregistered label
   is refused.                                                                            *)
EXTENDS Integers, FiniteSets, Sequences
CONSTANTS Reg, Labels
VARIABLES ls, last
vars == <<ls, last>>
NoSet == [ok |-> FALSE, lab |-> <<>>, mem |-> {}]
Registered(r) == {ls[r].lab[i] : i \in DOMAIN ls[r].lab}
Ok(v)  == last' = [out |-> "ok", ret |-> v]
Refuse == last' = [out |-> "panic", ret |-> 0] /\ UNCHANGED ls
Init == ls = [r \in Reg |-> NoSet] /\ last = [out |-> "ok", ret |-> 0]
LNew(r, lab) == ls' = [ls EXCEPT ![r] = [ok |-> TRUE, lab |-> lab, mem |-> {}]] /\ Ok(0)
LAdd(r, x) == ls[r].ok /\ IF x \in Registered(r)
                          THEN ls' = [ls EXCEPT ![r].mem = @ \cup {x}] /\ Ok(0) ELSE Refuse
LRemove(r, x) == ls[r].ok /\ IF x \in Registered(r)
                             THEN ls' = [ls EXCEPT ![r].mem = @ \ {x}] /\ Ok(0) ELSE Refuse
LCopy(r, a) == ls[a].ok /\ ls' = [ls EXCEPT ![r] = ls[a]] /\ Ok(0)
LEq(a, b) == ls[a].ok /\ ls[b].ok /\ UNCHANGED ls /\ Ok(ls[a] = ls[b])
InOrder(s) == SelectSeq(s.lab, LAMBDA x : x \in s.mem)

DistinctSeqs == {s \in UNION {[1..n -> Labels] : n \in 0..Cardinality(Labels)} :
                   \A i, j \in DOMAIN s : s[i] = s[j] => i = j}
Next == \E r \in Reg : \/ \E s \in DistinctSeqs : LNew(r, s)
                       \/ \E x \in Labels : LAdd(r, x) \/ LRemove(r, x)
                       \/ \E a \in Reg : LCopy(r, a) \/ LEq(r, a)
Spec == Init /\ [][Next]_vars
OnlyRegistered == \A r \in Reg : ls[r].mem \subseteq Registered(r)
OrderListsMembers == \A r \in Reg : LET q == InOrder(ls[r]) IN
    Len(q) = Cardinality(ls[r].mem) /\ {q[i] : i \in DOMAIN q} = ls[r].mem
View == ls
==========================================================================
