---------------------------- MODULE IconAllocGen ----------------------------
(***************************************************************************)
(* Prints the behaviours of IconAlloc, as sequences of operations, for the *)
(* driver to replay on the code. Base is the number of ordinals that are   *)
(* left to the operations: the driver moves the end of the range of        *)
(* ordinals to theirs by using one first.                                  *)
(***************************************************************************)
EXTENDS IconAlloc, Json

VARIABLE hist

GenInit == Init /\ hist = <<>>
GenStep == \/ \E g \in Groups, n \in 1..MaxImages : SetGroup(g, n)
           \/ UserSet(1) \/ UserSet(3) \/ UserDel(1) \/ UserDel(2)
           \/ DelGroup("a") \/ Reload
GenNext == /\ steps < MaxSteps /\ GenStep /\ steps' = steps + 1
           /\ hist' = Append(hist, last')
GenSpec == GenInit /\ [][GenNext]_<<avars, hist>>
PrintCase == steps = MaxSteps => PrintT(<<"CASE", ToJson([ops |-> hist])>>)
=============================================================================
