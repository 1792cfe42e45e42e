---------------------------- MODULE Pools_Gen ----------------------------
(* Histories for the real pools, generated by TLC's simulator: the specification's own
   next-state relation, with the call recorded, over sizes and indices on word boundaries. *)
EXTENDS Pools, TLC, Json
CONSTANTS Sizes, Indices, Depth
VARIABLE hist
Log(h) == hist' = Append(hist, h)
GInit == Init /\ hist = <<>>
GNext ==
  /\ Len(hist) < Depth
  /\ \E r \in {RandomElement(Reg)}, a \in {RandomElement(Reg)}, b \in {RandomElement(Reg)},
        n \in {RandomElement(Sizes)}, x \in {RandomElement(Indices)}, y \in {RandomElement(Indices)} :
     \/ New(r, n) /\ Log([op |-> "new", r |-> r, n |-> n])
     \/ From(r, n, <<x, y>>) /\ Log([op |-> "from", r |-> r, n |-> n, xs |-> <<x, y>>])
     \/ Add(r, x) /\ Log([op |-> "add", r |-> r, x |-> x])
     \/ Add(r, y) /\ Log([op |-> "add", r |-> r, x |-> y])
     \/ Remove(r, x) /\ Log([op |-> "remove", r |-> r, x |-> x])
     \/ Resize(r, n) /\ Log([op |-> "resize", r |-> r, n |-> n])
     \/ Fill(r) /\ Log([op |-> "fill", r |-> r])
     \/ Contains(r, x) /\ Log([op |-> "contains", r |-> r, x |-> x])
     \/ Copy(r, a) /\ Log([op |-> "copy", r |-> r, a |-> a])
     \/ Union(r, a, b) /\ Log([op |-> "union", r |-> r, a |-> a, b |-> b])
     \/ Inter(r, a, b) /\ Log([op |-> "inter", r |-> r, a |-> a, b |-> b])
     \/ Subset(a, b) /\ Log([op |-> "subset", a |-> a, b |-> b])
     \/ Eq(a, b) /\ Log([op |-> "eq", a |-> a, b |-> b])
GSpec == GInit /\ [][GNext]_<<vars, hist>>
Emit == Len(hist) = Depth => PrintT(<<"HIST", ToJson(hist)>>)
==========================================================================
