---------------------------- MODULE ObjectTrace ----------------------------
(***************************************************************************)
(* Sessions that write objects: C03 (the directory encodes exactly the     *)
(* set), C04 (the object around it).                                       *)
(***************************************************************************)
EXTENDS ResourceSetActions, Throng

BlockSet(blocks) == {<<x[1], x[2], x[3]>> : x \in ToSet(blocks)}

WriteObject ==
    /\ IsEvent("coff")
    /\ IF ev.arch \notin Supported
       THEN J("C04", ev.err /\ ev.size = 0)
       ELSE /\ J("C03", ~ev.err)
            /\ J("C04", ~ev.err)
            /\ ~ev.err =>
               /\ J("C03", /\ ~ev.bad
                           /\ DirValid(ev.sec, 0, ev.secsize)
                           /\ DirHolds(ev.sec, 0, BlockSet(ev.blocks), sets[ev.s])
                           /\ DirCanonical(ev.sec, 0))
               /\ J("C04", /\ ~ev.bad
                           /\ HeadersValid(ev.head, ev.arch)
                           /\ Tiles(ev.head, ev.tail, ev.size)
                           /\ DirValid(ev.sec, 0, ev.secsize)
                           /\ ev.secsize = RawSize(ev.head)
                           /\ DirEnd(ev.sec, 0) <= ev.secsize /\ ev.secsize - DirEnd(ev.sec, 0) < 8
                           /\ RelocsExact(ev.head, ev.sec, ev.tail, ev.arch)
                           /\ NumReloc(ev.head) = Cardinality(DOMAIN sets[ev.s]))
    /\ UNCHANGED <<sets, memo>>

\* A set that the format cannot hold is refused
ThrongObject ==
    /\ IsEvent("throng")
    /\ LET E == ev IN
       /\ J("C03", E.err = TooMuch(E.shape, E.n))
       /\ J("C04", E.err = TooMuch(E.shape, E.n) /\ (E.err => E.size = 0))
       /\ E.err \/ J("C03", ~E.bad /\ DirectoryOf(E) /\ E.count = HowMany(E.shape, E.n))
       /\ E.err \/ J("C04", ~E.bad /\ ObjectOf(E, E.arch))
    /\ UNCHANGED <<sets, memo>>

Done == TraceDone /\ UNCHANGED <<sets, memo>>
Next == RSNext \/ WriteObject \/ ThrongObject \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
