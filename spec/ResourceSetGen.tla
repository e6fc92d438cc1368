--------------------------- MODULE ResourceSetGen ---------------------------
(***************************************************************************)
(* Generates every behaviour of ResourceSet of a given length over four    *)
(* keys: k1 and k2 differ by their language, k3 has another resource, k4   *)
(* another type.  Each one is printed, and replayed into the code.         *)
(***************************************************************************)
EXTENDS ResourceSet, Json

CONSTANT Depth
VARIABLES content, hist

KeyNames == 1..4
Step(op, k) == hist' = Append(hist, [op |-> op, k |-> k])

Init == content = EmptySet /\ hist = <<>>
GSet(k) == content' = Put(content, k, Len(hist)) /\ Step("set", k)
\* deleting an absent key is only interesting when the set is not empty
GDel(k) == content # EmptySet /\ content' = Without(content, k) /\ Step("del", k)
Observe(op) == (IF hist = <<>> THEN TRUE ELSE hist[Len(hist)].op # op) /\ UNCHANGED content /\ Step(op, 0)
Mutate == \E k \in KeyNames : GSet(k) \/ GDel(k)
GNext == /\ Len(hist) < Depth
         /\ Mutate \/ Observe("walk") \/ Observe("walktype") \/ Observe("write")
Spec == Init /\ [][GNext]_<<content, hist>>

\* Always true: prints complete behaviours
PrintCase == Len(hist) = Depth => PrintT(<<"CASE", ToJson(hist)>>)
=============================================================================
