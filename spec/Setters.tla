------------------------------- MODULE Setters -------------------------------
(***************************************************************************)
(* The setters of a resource set, and where Windows looks for what they    *)
(* set (C24).  A set maps keys <<type, name, language>> to what they hold. *)
(* Users may change what is behind the setters' back.                      *)
(*                                                                         *)
(* The history variables remember what was asked: the manifest, the        *)
(* version information of each language, the images of each group, and the *)
(* resources of another type.                                              *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxSteps,
          Langs,        \* languages of version information
          Infos,        \* version informations: sets of languages
          Wipe          \* TRUE: SetVersionInfo removes the other languages (it doesn't)

VARIABLES set, man, ver, grp, other, hist
vars == <<set, man, ver, grp, other, hist>>

Nothing == "-"
Put(f, k, v) == (k :> v) @@ f
Del(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]

ManKey == <<"manifest", "1", "en">>
VerKey(l) == <<"version", "1", l>>
GrpKey(g) == <<"group", g[1], g[2]>>
ImgKey(i) == <<"image", i, "neutral">>
OthKey == <<"other", "1", "en">>

Groups == {<<"1", "neutral">>, <<"A", "neutral">>, <<"A", "en">>}
Top(s) == LET I == {k[2] : k \in {x \in DOMAIN s : x[1] = "image"}} IN IF I = {} THEN 0 ELSE CHOOSE i \in I : \A j \in I : j <= i

Init == set = <<>> /\ man = Nothing /\ ver = [l \in Langs |-> Nothing] /\ grp = <<>> /\ other = Nothing /\ hist = <<>>

\* What is set is named after the step that set it
Name == ToString(Len(hist) + 1)
Did(op) == hist' = Append(hist, op)

SetManifest == /\ set' = Put(set, ManKey, Name) /\ man' = Name
               /\ UNCHANGED <<ver, grp, other>> /\ Did([op |-> "man"])

SetVersion(L) ==
    /\ LET kept == IF Wipe THEN [k \in {x \in DOMAIN set : x[1] # "version"} |-> set[k]] ELSE set IN
       set' = [k \in DOMAIN kept \cup {VerKey(l) : l \in L} |-> IF k \in {VerKey(l) : l \in L} THEN Name ELSE kept[k]]
    /\ ver' = [l \in Langs |-> IF l \in L THEN Name ELSE ver[l]]
    /\ UNCHANGED <<man, grp, other>> /\ Did([op |-> "ver", langs |-> L])

SetGroup(g) ==
    /\ LET i == Top(set) + 1 IN set' = Put(Put(set, ImgKey(i), Name), GrpKey(g), <<i>>)
    /\ grp' = Put(grp, g, Name)
    /\ UNCHANGED <<man, ver, other>> /\ Did([op |-> "grp", g |-> g])

UserSet == /\ set' = Put(set, OthKey, Name) /\ other' = Name /\ UNCHANGED <<man, ver, grp>> /\ Did([op |-> "other"])
\* Users write over what setters wrote
UserMan == /\ set' = Put(set, ManKey, Name) /\ man' = Name /\ UNCHANGED <<ver, grp, other>> /\ Did([op |-> "userman"])
UserVer(l) == /\ VerKey(l) \in DOMAIN set /\ set' = Del(set, VerKey(l)) /\ ver' = [ver EXCEPT ![l] = Nothing]
              /\ UNCHANGED <<man, grp, other>> /\ Did([op |-> "delver", l |-> l])
DelGroup(g) == /\ GrpKey(g) \in DOMAIN set /\ set' = Del(set, GrpKey(g)) /\ grp' = Del(grp, g)
               /\ UNCHANGED <<man, ver, other>> /\ Did([op |-> "delgrp", g |-> g])
Reload == /\ set # <<>> /\ UNCHANGED <<set, man, ver, grp, other>> /\ Did([op |-> "reload"])

Next == /\ Len(hist) < MaxSteps
        /\ \/ SetManifest \/ (\E L \in Infos : SetVersion(L)) \/ (\E g \in Groups : SetGroup(g))
           \/ UserSet \/ UserMan \/ (\E l \in Langs : UserVer(l)) \/ (\E g \in Groups : DelGroup(g)) \/ Reload
Spec == Init /\ [][Next]_vars

\* What Windows finds
Found(k) == IF k \in DOMAIN set THEN set[k] ELSE Nothing
ManifestFound == Found(ManKey) = man
VersionFound == \A l \in Langs : Found(VerKey(l)) = ver[l]
GroupFound == /\ {k \in DOMAIN set : k[1] = "group"} = {GrpKey(g) : g \in DOMAIN grp}
              /\ \A g \in DOMAIN grp : \A i \in 1..Len(set[GrpKey(g)]) : Found(ImgKey(set[GrpKey(g)][i])) = grp[g]
OtherFound == Found(OthKey) = other
\* A setter only touches its own resources
Frame == [][LET op == hist'[Len(hist')].op IN
            /\ op = "man" => \A k \in DOMAIN set \ {ManKey} : k \in DOMAIN set' /\ set'[k] = set[k]
            /\ op = "ver" => \A k \in {x \in DOMAIN set : x[1] # "version"} : k \in DOMAIN set' /\ set'[k] = set[k]
            /\ op = "grp" => \A k \in {x \in DOMAIN set : x[1] # "group"} : k \in DOMAIN set' /\ set'[k] = set[k]]_vars

PrintCase == Len(hist) = MaxSteps => PrintT(<<"CASE", ToJson([ops |-> hist])>>)
=============================================================================
