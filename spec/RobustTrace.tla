----------------------------- MODULE RobustTrace -----------------------------
(***************************************************************************)
(* Sessions on malformed inputs (C23): paths of ApiGraph are followed from *)
(* many inputs of a kind, and the results of the operations are counted.   *)
(* An operation that panics, or does not end, is recorded as a "crash"     *)
(* event, which is never accepted.                                         *)
(***************************************************************************)
EXTENDS TraceBase, TLC

CONSTANT Props

\* the operations, and what they are called on
Graph == INSTANCE ApiGraph WITH MaxPath <- 0, start <- 0, path <- 0, kind <- 0, has <- 0

VARIABLE tried  \* number of inputs that were tried

vars == <<sid, pos, tried>>
J(p, cond) == (p \in Props => cond) = TRUE

\* an operation that returns no error returns something
Returned(row) == ~row.err => row.val
Known(row) == \E o \in Graph!Ops : o.name = row.fn

Batch == /\ IsEvent("batch")
         /\ J("C23", /\ ev.in \in Graph!Outside
                     /\ \A i \in 1..Len(ev.rows) : Known(ev.rows[i]) /\ Returned(ev.rows[i]))
         /\ tried' = tried + ev.n

Init == TraceInit /\ tried = 0
Done == TraceDone /\ UNCHANGED tried
Next == Batch \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
