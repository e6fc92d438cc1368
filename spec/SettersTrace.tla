---------------------------- MODULE SettersTrace ----------------------------
(***************************************************************************)
(* Sessions on the setters of a resource set (C24): SetManifest,           *)
(* SetVersionInfo, SetIcon, SetCursor and their translations, among other  *)
(* calls that change the set.                                              *)
(***************************************************************************)
EXTENDS IconActions

V == INSTANCE VersionRecords
M == INSTANCE Manifest

ManifestKey == <<ID(24), ID(1), 1033>>
VersionKey(l) == <<ID(16), ID(1), l>>

\* c2 is c, but for the keys of K, that it has
OnlyChanges(c, c2, K) == /\ DOMAIN c2 = DOMAIN c \cup K
                         /\ \A k \in DOMAIN c \ K : c2[k] = c[k]

Settings(x) == [name |-> x.name, ver |-> x.ver, desc |-> x.desc, os |-> x.os, level |-> x.level, dpi |-> x.dpi,
                on |-> {x.on[i] : i \in 1..Len(x.on)}]

SetManifest ==
    /\ IsEvent("setman")
    /\ LET c == sets[ev.s]
           c2 == ContentOf(ev.out)
       IN  /\ J("C24", /\ OnlyChanges(c, c2, {ManifestKey})
                       /\ c2[ManifestKey] = ev.d
                       /\ LET doc == M!Document(ev.xml) IN doc # <<>> /\ M!States(doc[1], Settings(ev.m)))
           /\ sets' = [sets EXCEPT ![ev.s] = c2]
    /\ UNCHANGED <<memo, ics>>

\* res: the resources found under the languages of the version info
SetVersion ==
    /\ IsEvent("setver")
    /\ LET c == sets[ev.s]
           c2 == ContentOf(ev.out)
           x == V!Info(ev.x)
           L == DOMAIN x.lt
       IN  /\ J("C24", /\ OnlyChanges(c, c2, {VersionKey(l) : l \in L})
                       /\ Len(ev.res) = Cardinality(L)
                       /\ \A i \in 1..Len(ev.res) :
                             LET r == ev.res[i] IN
                             /\ r.l \in L /\ c2[VersionKey(r.l)] = r.d
                             /\ V!WellFormed(r.b)
                             /\ V!Says(V!TreeInfo(r.b), [x EXCEPT !.lt = V!SplitTables(x.lt)[r.l]]))
           /\ sets' = [sets EXCEPT ![ev.s] = c2]
    /\ UNCHANGED <<memo, ics>>

\* Everything that is in a set
List == IsEvent("list") /\ J("C24", ContentOf(ev.out) = sets[ev.s] /\ Len(ev.out) = Cardinality(DOMAIN sets[ev.s]))
                        /\ UNCHANGED <<sets, memo, ics>>

\* A group that was set is read with its images
Fetch ==
    /\ IsEvent("fetch")
    /\ LET im == ReadGroup(sets[ev.s], ev.k, ev.r, ev.l) IN
       J("C24", /\ ev.err = (im = <<>>)
                /\ im = <<>> \/ SavedHolds(ev.file, ev.k, im[1]))
    /\ UNCHANGED <<sets, memo, ics>>

\* The numbers of the standard types and languages
Standard == [cursor |-> 1, bitmap |-> 2, icon |-> 3, menu |-> 4, dialog |-> 5, string |-> 6, fontdir |-> 7, font |-> 8,
             accelerator |-> 9, rcdata |-> 10, messagetable |-> 11, groupcursor |-> 12, groupicon |-> 14, version |-> 16,
             plugplay |-> 19, vxd |-> 20, anicursor |-> 21, aniicon |-> 22, html |-> 23, manifest |-> 24,
             neutral |-> 0, default |-> 1033]
Numbers == /\ IsEvent("numbers")
           /\ J("C24", ev.of = Standard)
           /\ UNCHANGED <<sets, memo, ics>>

SInit == Init /\ ics = <<>>
Done == TraceDone /\ UNCHANGED <<sets, memo, ics>>
Next == (RSNext /\ UNCHANGED ics) \/ Blobs \/ LoadFile \/ SetGroup \/ SetManifest \/ SetVersion \/ List \/ Fetch \/ Numbers \/ Done
Spec == SInit /\ [][Next]_ivars
=============================================================================
