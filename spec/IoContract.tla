----------------------------- MODULE IoContract -----------------------------
(***************************************************************************)
(* What may come out of an operation that reads a source and writes to a   *)
(* destination, when some of its reads, seeks and writes may fail (C12).   *)
(*                                                                         *)
(* A run is a record: dst (a write failed), src (a read or a seek failed,  *)
(* or the source ended early), err (the operation returned an error),      *)
(* same (its result is the one of a run where nothing fails).              *)
(***************************************************************************)

Honest(r) == /\ r.dst => r.err
             /\ ~r.err => r.same
             /\ (~r.dst /\ ~r.src) => ~r.err
=============================================================================
