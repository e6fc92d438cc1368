------------------------------- MODULE IoPatch -------------------------------
(***************************************************************************)
(* How an executable is patched, at the level of its I/O: the source has   *)
(* four blocks: headers, sections, old resources, remainder. Headers are   *)
(* read, then everything is read once to compute a checksum, then again    *)
(* to be written with the checksum in the headers.                         *)
(* Any call may fail, and the source may end early.                        *)
(* Ignored: calls whose errors are ignored. The contract holds when there  *)
(* is none, or the size only (a wrong size is detected later).             *)
(***************************************************************************)
EXTENDS Naturals, Sequences, IoContract

CONSTANT Ignored, MaxFaults

Blocks == <<"hdr", "sec", "old", "rest">>
Size == Len(Blocks)

VARIABLES pc,        \* next call
          at,        \* position in the source
          end,       \* where the source ends
          size,      \* what the operation believes
          pass, sum, out, err, dst, src, faults

vars == <<pc, at, end, size, pass, sum, out, err, dst, src, faults>>

Init == /\ pc = "size" /\ at = 0 /\ size = 0 /\ pass = 0 /\ sum = <<>> /\ out = <<>>
        /\ err = FALSE /\ dst = FALSE /\ src = FALSE /\ faults = 0
        /\ end = Size

Fail(call) == /\ faults < MaxFaults /\ faults' = faults + 1
\* What follows an error of a call
OnError(call, next) == IF call \in Ignored THEN pc' = next /\ UNCHANGED err ELSE pc' = "done" /\ err' = TRUE

\* The end of the source comes earlier than it was
Shrink == /\ pc # "done" /\ end = Size /\ \E e \in 1..(Size - 1) : end' = e
          /\ Fail("end") /\ UNCHANGED <<pc, at, size, pass, sum, out, err, dst, src>>

GetSize == /\ pc = "size"
           /\ \/ size' = Size /\ pc' = "hdr" /\ UNCHANGED <<err, src, faults>>
              \/ Fail("size") /\ src' = TRUE /\ size' = 0 /\ OnError("size", "hdr")
           /\ UNCHANGED <<at, end, pass, sum, out, dst>>

\* Headers tell how long the file must be
ReadHeaders == /\ pc = "hdr"
               /\ \/ at' = 1 /\ UNCHANGED <<src, faults>>
                     /\ IF size < Size THEN err' = TRUE /\ pc' = "done" ELSE pc' = "seek0" /\ UNCHANGED err
                  \/ Fail("hdr") /\ src' = TRUE /\ OnError("hdr", "seek0") /\ UNCHANGED at
               /\ UNCHANGED <<end, size, pass, sum, out, dst>>

\* The calls of a pass
After == [seek0 |-> "read0", read0 |-> "put0", put0 |-> "seek1", seek1 |-> "read1", read1 |-> "put1", put1 |-> "put2",
          put2 |-> "seek3", seek3 |-> "read3", read3 |-> "put3", put3 |-> "next"]
Seeks == [seek0 |-> 0, seek1 |-> 1, seek3 |-> 3]
Reads == {"read0", "read1", "read3"}
Puts == {"put0", "put1", "put2", "put3"}
VARIABLE buf

Seek == /\ pc \in DOMAIN Seeks
        /\ \/ at' = Seeks[pc] /\ pc' = After[pc] /\ UNCHANGED <<err, src, faults>>
           \/ Fail(pc) /\ src' = TRUE /\ OnError(pc, After[pc]) /\ UNCHANGED at
        /\ UNCHANGED <<end, size, pass, sum, out, dst, buf>>

Read == /\ pc \in Reads
        /\ \/ /\ at < end /\ buf' = Blocks[at + 1] /\ at' = at + 1 /\ pc' = After[pc] /\ UNCHANGED <<err, src, faults>>
           \/ /\ at >= end /\ buf' = "" /\ src' = TRUE /\ OnError(pc, After[pc]) /\ UNCHANGED <<at, faults>>
           \/ /\ Fail(pc) /\ buf' = "" /\ src' = TRUE /\ OnError(pc, After[pc]) /\ UNCHANGED at
        /\ UNCHANGED <<end, size, pass, sum, out, dst>>

\* A block goes to the checksum in the first pass, and to the destination in the second one
Block == IF pc = "put2" THEN "new" ELSE buf
Put == /\ pc \in Puts
       /\ IF pass = 0
          THEN sum' = Append(sum, Block) /\ pc' = After[pc] /\ UNCHANGED <<out, err, dst, faults>>
          ELSE /\ UNCHANGED sum
               /\ \/ out' = Append(out, IF pc = "put0" THEN <<Block, sum>> ELSE <<Block>>) /\ pc' = After[pc] /\ UNCHANGED <<err, dst, faults>>
                  \/ Fail(pc) /\ dst' = TRUE /\ OnError(pc, After[pc]) /\ UNCHANGED out
       /\ UNCHANGED <<at, end, size, pass, src, buf>>

NextPass == /\ pc = "next"
            /\ IF pass = 0 THEN pass' = 1 /\ pc' = "seek0" ELSE pc' = "done" /\ UNCHANGED pass
            /\ UNCHANGED <<at, end, size, sum, out, err, dst, src, faults, buf>>

Next == \/ (Shrink \/ GetSize \/ ReadHeaders) /\ UNCHANGED buf
        \/ Seek \/ Read \/ Put \/ NextPass
        \/ pc = "done" /\ UNCHANGED <<vars, buf>>
Spec == Init /\ buf = "" /\ [][Next]_<<vars, buf>>

Reference == <<<<"hdr", <<"hdr", "sec", "new", "rest">>>>, <<"sec">>, <<"new">>, <<"rest">>>>
Contract == pc = "done" => Honest([dst |-> dst, src |-> src, err |-> err, same |-> out = Reference])
=============================================================================
