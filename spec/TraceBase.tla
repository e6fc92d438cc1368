----------------------------- MODULE TraceBase -----------------------------
(***************************************************************************)
(* What all the trace specifications share: the recorded sessions, one per *)
(* line of the file named by the environment variable TRACE, and a pointer *)
(* to the next event of one of them.                                       *)
(***************************************************************************)
EXTENDS Naturals, Sequences, Json, IOUtils

Sessions == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES sid, pos

Events == Sessions[sid].ev
ev == Events[pos]

TraceInit == sid \in 1..Len(Sessions) /\ pos = 1
IsEvent(op) == pos <= Len(Events) /\ ev.op = op /\ pos' = pos + 1 /\ UNCHANGED sid
\* A session that was accepted stutters
TraceDone == pos > Len(Events) /\ UNCHANGED <<sid, pos>>
=============================================================================
