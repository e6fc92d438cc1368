------------------------------ MODULE IconTrace ------------------------------
(***************************************************************************)
(* Sessions on icons and cursors, see IconActions.                         *)
(***************************************************************************)
EXTENDS IconActions

IInit == Init /\ ics = <<>>
Done == TraceDone /\ UNCHANGED <<sets, memo, ics>>
Next == (RSNext /\ UNCHANGED ics) \/ Blobs \/ LoadFile \/ Save \/ SetGroup \/ GetGroup \/ NewIcon \/ Resized \/ Done
Spec == IInit /\ [][Next]_ivars
=============================================================================
