------------------------------ MODULE ExeTrace ------------------------------
(***************************************************************************)
(* Sessions that patch executables, and load resources from them:          *)
(* C06 (what is embedded is loaded back), C07 (loading), C08 (the rest of  *)
(* the image is intact), C09 (consistent layout), C10 (checksum), C11      *)
(* (signatures).                                                           *)
(***************************************************************************)
EXTENDS ResourceSetActions, Throng, PEImage, Checksum

VARIABLE imgs    \* image number |-> position of the event that describes it

evars == <<sid, pos, sets, memo, imgs>>

Proj(i) == Events[imgs[i]].p

BlockSet(blocks) == {<<x[1], x[2], x[3]>> : x \in ToSet(blocks)}
DirVA(P) == P.dirs[DirRes].va
HoldsDir(P) == RsrcIdx(P) # {} /\ DirValid(P.rsec, DirVA(P), P.rsecsize)

\* The resources that an image holds, according to its bytes
Holdings(P) ==
    IF ~HasResources(P) THEN EmptySet
    ELSE LET L == Leaves(P.rsec, DirVA(P))
             keys == {x.k : x \in L}
             leaf(k) == CHOOSE x \in L : x.k = k
             data(x) == (CHOOSE b \in BlockSet(P.blocks) : b[1] = x.o /\ b[2] = x.n)[3]
         IN  [k \in keys |-> data(leaf(k))]

\* A new source image, made by the driver
Image == /\ IsEvent("image")
         /\ Source(ev.p) = TRUE
         /\ (HasResources(ev.p) => HoldsDir(ev.p)) = TRUE
         /\ imgs' = (ev.img :> pos) @@ imgs
         /\ UNCHANGED <<sets, memo>>

\* The library may refuse images whose optional header is longer than its directories
MayRefuse(P) == P.slack > 0

Strip == ev.auth = 1
Refused(P) == Signed(P) /\ ev.auth = 0

Patch ==
    /\ IsEvent("patch")
    /\ LET P == Proj(ev.src)
           Q == ev.p
       IN  /\ J("C11", IF MayRefuse(P) /\ ev.err THEN ev.wrote = 0 ELSE IF Refused(P) THEN ev.err /\ ev.signederr /\ ev.wrote = 0 ELSE ~ev.signederr)
           /\ J("C06", ~Refused(P) /\ ~MayRefuse(P) /\ (HasRoom(P) \/ KeepsPlace(P)) => ~ev.err)
           \* an error is the only answer when there is no room
           /\ J("C09", ev.err \/ (Q.ok /\ ConsistentBut(Q, Ragged(P)) /\ RsrcEntry(Q)))
           /\ J("C09", ev.err \/
                  /\ HoldsDir(Q)
                  /\ DirHolds(Q.rsec, DirVA(Q), BlockSet(Q.blocks), sets[ev.s])
                  /\ DirEnd(Q.rsec, DirVA(Q)) <= Q.dirs[DirRes].size
                  /\ AddressesKept(P, Q) /\ SizesFollow(P, Q))
           /\ J("C06", ev.err \/ (Q.ok /\ RsrcIdx(Q) # {} /\ HoldsDir(Q)
                                  /\ DirHolds(Q.rsec, DirVA(Q), BlockSet(Q.blocks), sets[ev.s])))
           /\ J("C08", ev.err \/ (Q.ok /\ Intact(P, Q, Strip)))
           /\ J("C11", ev.err \/ (Q.ok /\ IF Signed(P) THEN IF Strip THEN Stripped(P, Q) ELSE CertKept(P, Q)
                                          ELSE ~Signed(Q)))
           /\ J("C10", ev.err \/ (Q.ok /\ IF ev.force \/ P.sum # <<0, 0>>
                                          THEN Q.sum = PECheckSum(Q.w, Q.sumat, Q.size)
                                          ELSE Q.sum = <<0, 0>>))
    /\ imgs' = IF ev.err THEN imgs ELSE (ev.dst :> pos) @@ imgs
    /\ UNCHANGED <<sets, memo>>

\* Images that only differ from ev.img by one word, and by their checksums
Sums ==
    /\ IsEvent("sums")
    /\ LET P == Proj(ev.img)
           s0 == WordSum(P.w, P.sumat)
       IN  J("C10", /\ ev.at % 2 = 0 /\ P.w[ev.at \div 2 + 1] = 0
                    /\ \A i \in 1..Len(ev.v) :
                          LET s == Add(s0, ev.v[i]) + P.size
                          IN  ev.lo[i] = s % 65536 /\ ev.hi[i] = s \div 65536)
    /\ UNCHANGED <<sets, memo, imgs>>

\* The part of a set that is loaded when asking for a type
Selected(c, t) ==
    LET also == IF t = RTGroupIcon THEN {RTIcon} ELSE IF t = RTGroupCursor THEN {RTCursor} ELSE {}
    IN  [k \in {x \in DOMAIN c : x[1] = t \/ x[1] \in also} |-> c[k]]

SameContent(out, c) == WalkAnswers(c, out, 0)

\* Loads an image, and keeps the result as set number ev.s
Load ==
    /\ IsEvent("load")
    /\ LET P == Proj(ev.img)
           c == Holdings(P)
           noType == ev.single /\ ev.t = ID(0)
           declined == MayRefuse(P) /\ ev.err /\ ~ev.none
           want == IF noType \/ declined THEN EmptySet ELSE IF ev.single THEN Selected(c, ev.t) ELSE c
           \* An image without resources is reported as such; having none of a type may be
           \* and zero is no type
           okErr == IF noType \/ declined THEN ev.err /\ ~ev.none
                    ELSE IF ~HasResources(P) THEN ev.err /\ ev.none
                    ELSE ~ev.err \/ (DOMAIN want = {} /\ ev.none)
       IN  /\ J("C07", okErr /\ SameContent(ev.out, want) /\ (ev.nilset => noType \/ MayRefuse(P)))
           /\ J("C06", (HasResources(P) /\ ~ev.single) => (okErr /\ SameContent(ev.out, want)))
           /\ sets' = [sets EXCEPT ![ev.s] = want]
    /\ UNCHANGED <<memo, imgs>>

IsSigned ==
    /\ IsEvent("signed")
    /\ LET P == Proj(ev.img) IN
       J("C11", ev.kept /\ IF ev.err THEN MayRefuse(P) ELSE ev.r = Signed(P))
    /\ UNCHANGED <<sets, memo, imgs>>

\* Files that are not images: other signatures, an unknown kind of image, headers that are missing
NotImage == \/ ev.mz # <<77, 90>>
            \/ ev.sig # <<80, 69, 0, 0>>
            \/ ev.magic \notin {<<11, 1>>, <<11, 2>>}
            \/ ev.len < ev.hdrEnd

Stranger ==
    /\ IsEvent("stranger")
    /\ NotImage = TRUE
    /\ J("C07", ev.load /\ ~ev.none)      \* refused, for that reason
    /\ J("C09", ev.patch /\ ev.wrote = 0)
    /\ J("C11", ev.signed /\ ev.kept /\ ~ev.signederr)
    /\ UNCHANGED <<sets, memo, imgs>>

\* Images whose resource directory is broken, or not in the file at all
Wants(E, t) == ~E.single \/ t = E.t \/ (E.t = RTGroupIcon /\ t = RTIcon) \/ (E.t = RTGroupCursor /\ t = RTCursor)
Broken ==
    /\ IsEvent("broken")
    /\ LET E == ev IN
       /\ J("C07", (E.cut \/ DirBroken(E.sec, E.va, Len(E.sec), LAMBDA t : Wants(E, t))) => E.err /\ ~E.none)
       /\ J("C09", E.cut => E.patch)
    /\ UNCHANGED <<sets, memo, imgs>>

\* Sets around the limits of the format: refused, or found again
ThrongImage ==
    /\ IsEvent("throngexe")
    /\ LET E == ev IN
       /\ J("C06", E.err = TooMuch(E.shape, E.n) /\ (E.err => E.wrote = 0))
       /\ J("C06", E.err \/ (E.ok /\ Members(E)))
    /\ UNCHANGED <<sets, memo, imgs>>

EInit == Init /\ imgs = <<>>
Done == TraceDone /\ UNCHANGED <<sets, memo, imgs>>
Next == (RSNext /\ UNCHANGED imgs) \/ Image \/ Patch \/ Load \/ IsSigned \/ Stranger \/ Broken \/ ThrongImage \/ Sums \/ Done
Spec == EInit /\ [][Next]_evars
=============================================================================
