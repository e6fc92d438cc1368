-------------------------- MODULE ResourceSetTrace --------------------------
(* Sessions on resource sets: C01, C02, C05. *)
EXTENDS ResourceSetActions

Done == TraceDone /\ UNCHANGED <<sets, memo>>
Next == RSNext \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
