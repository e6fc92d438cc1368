------------------------------ MODULE IoTrace ------------------------------
(***************************************************************************)
(* Sessions on I/O failures (C12): an operation is run with no failure,    *)
(* then again with every failure the driver can make: writes that fail at  *)
(* every byte or at every call, reads and seeks that fail at every call,   *)
(* sources that end early at every byte, and all kinds of sources and      *)
(* destinations.                                                           *)
(***************************************************************************)
EXTENDS TraceBase, IoContract

CONSTANT Props

VARIABLE known   \* whether the operation was run with no failure

vars == <<sid, pos, known>>
J(p, cond) == (p \in Props => cond) = TRUE

\* The result of reference: n bytes were written, with w calls; the source got s calls
Ref == /\ IsEvent("ref") /\ J("C12", ~ev.err)
       /\ known' = [n |-> ev.n, w |-> ev.w, s |-> ev.s]

\* Writes fail from byte number row.n on
DstByte == /\ IsEvent("dstbyte")
           /\ J("C12", \A i \in 1..Len(ev.rows) :
                  LET r == ev.rows[i] IN Honest(r) /\ (r.n < known.n => r.dst))
           /\ UNCHANGED known

\* The call number row.n fails, and those that follow do not
DstCall == IsEvent("dstcall") /\ J("C12", \A i \in 1..Len(ev.rows) : Honest(ev.rows[i])) /\ UNCHANGED known
SrcCall == IsEvent("srccall") /\ J("C12", \A i \in 1..Len(ev.rows) : Honest(ev.rows[i])) /\ UNCHANGED known
\* The source ends at row.n
SrcEnd == IsEvent("srcend") /\ J("C12", \A i \in 1..Len(ev.rows) : Honest(ev.rows[i])) /\ UNCHANGED known
\* Nothing fails
Kinds == IsEvent("kinds") /\ J("C12", \A i \in 1..Len(ev.rows) : Honest(ev.rows[i]) /\ ~ev.rows[i].dst /\ ~ev.rows[i].src) /\ UNCHANGED known

Init == TraceInit /\ known = [n |-> 0, w |-> 0, s |-> 0]
Done == TraceDone /\ UNCHANGED known
Next == Ref \/ DstByte \/ DstCall \/ SrcCall \/ SrcEnd \/ Kinds \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
