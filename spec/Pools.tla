------------------------------ MODULE Pools ------------------------------
(* A register file of index pools (util::BinaryPool).  A pool of size len is a finite set
   of indices below len.  One action per public call; a call that asks for an index out of
   range, or combines pools of different sizes, is refused and changes nothing.          *)
EXTENDS Integers, FiniteSets, Sequences

CONSTANTS Reg, MaxLen
VARIABLES pool,   \* Reg -> [len, mem]; len = -1: the register holds no pool yet
          last    \* outcome of the last call: [out, ret]
vars == <<pool, last>>

NoPool == [len |-> -1, mem |-> {}]
Has(r) == pool[r].len >= 0
Ok(v)   == last' = [out |-> "ok", ret |-> v]
Refuse  == last' = [out |-> "panic", ret |-> 0] /\ UNCHANGED pool
Set(r, p) == pool' = [pool EXCEPT ![r] = p]

Init == pool = [r \in Reg |-> NoPool] /\ last = [out |-> "ok", ret |-> 0]

New(r, n) == Set(r, [len |-> n, mem |-> {}]) /\ Ok(0)
From(r, n, xs) == IF \A i \in DOMAIN xs : xs[i] < n
                  THEN Set(r, [len |-> n, mem |-> {xs[i] : i \in DOMAIN xs}]) /\ Ok(0)
                  ELSE Refuse
Add(r, x) == Has(r) /\ IF x < pool[r].len
                       THEN Set(r, [pool[r] EXCEPT !.mem = @ \cup {x}]) /\ Ok(0) ELSE Refuse
Remove(r, x) == Has(r) /\ IF x < pool[r].len
                          THEN Set(r, [pool[r] EXCEPT !.mem = @ \ {x}]) /\ Ok(0) ELSE Refuse
Resize(r, n) == Has(r) /\ Set(r, [pool[r] EXCEPT !.len = IF n < @ THEN @ ELSE n]) /\ Ok(0)
Fill(r) == Has(r) /\ Set(r, [pool[r] EXCEPT !.mem = 0..(pool[r].len - 1)]) /\ Ok(0)
Contains(r, x) == Has(r) /\ IF x < pool[r].len
                            THEN UNCHANGED pool /\ Ok(x \in pool[r].mem) ELSE Refuse
Union(r, a, b) == Has(a) /\ Has(b) /\
    IF pool[a].len = pool[b].len
    THEN Set(r, [len |-> pool[a].len, mem |-> pool[a].mem \cup pool[b].mem]) /\ Ok(0) ELSE Refuse
Inter(r, a, b) == Has(a) /\ Has(b) /\
    IF pool[a].len = pool[b].len
    THEN Set(r, [len |-> pool[a].len, mem |-> pool[a].mem \cap pool[b].mem]) /\ Ok(0) ELSE Refuse
Copy(r, a) == Has(a) /\ Set(r, pool[a]) /\ Ok(0)
Subset(a, b) == Has(a) /\ Has(b) /\
    IF pool[a].len = pool[b].len
    THEN UNCHANGED pool /\ Ok(pool[a].mem \subseteq pool[b].mem) ELSE Refuse
Eq(a, b) == Has(a) /\ Has(b) /\ UNCHANGED pool /\ Ok(pool[a] = pool[b])

Idx == 0..MaxLen
Next == \E r \in Reg :
          \/ \E n \in Idx : New(r, n) \/ Resize(r, n)
          \/ \E n \in Idx : \E x \in Idx, y \in Idx : From(r, n, <<x, y>>)
          \/ \E x \in Idx : Add(r, x) \/ Remove(r, x) \/ Contains(r, x)
          \/ Fill(r)
          \/ \E a \in Reg : Copy(r, a)
          \/ \E a \in Reg, b \in Reg : Union(r, a, b) \/ Inter(r, a, b)
          \/ \E b \in Reg : Subset(r, b) \/ Eq(r, b)
Spec == Init /\ [][Next]_vars

(* what an observer may rely on *)
TypeOK == \A r \in Reg : pool[r].len \in -1..MaxLen /\ pool[r].mem \subseteq 0..(pool[r].len - 1)
Full(p) == Cardinality(p.mem) = p.len
FullMeansAll == \A r \in Reg : Has(r) => (Full(pool[r]) <=> \A i \in 0..(pool[r].len - 1) : i \in pool[r].mem)
\* the size of a pool shrinks only by being replaced, and a refusal never changes anything
RefusalIsSilent == [][last'.out = "panic" => pool' = pool]_vars
OneRegisterAtATime == [][Cardinality({r \in Reg : pool'[r] # pool[r]}) <= 1]_vars
InclusionExclusion == \A a \in Reg, b \in Reg :
    Cardinality(pool[a].mem \cup pool[b].mem) + Cardinality(pool[a].mem \cap pool[b].mem)
      = Cardinality(pool[a].mem) + Cardinality(pool[b].mem)
SubsetAntisymmetric == \A a \in Reg, b \in Reg :
    (pool[a].len = pool[b].len /\ pool[a].mem \subseteq pool[b].mem /\ pool[b].mem \subseteq pool[a].mem)
      => pool[a] = pool[b]
View == pool
==========================================================================
