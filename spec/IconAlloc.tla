----------------------------- MODULE IconAlloc -----------------------------
(***************************************************************************)
(* Design of the groups of images (icon.go, cursor.go).  Adding a group    *)
(* stores every image under an ordinal of its own, and the group lists the *)
(* ordinals.  Images are shared with no one, because ordinals are taken    *)
(* above the highest one the set ever held, which users' own images and    *)
(* loaded ones raise too.                                                  *)
(*                                                                         *)
(* Images are abstracted to distinct tokens, identified by the step that   *)
(* made them and their rank.                                               *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS
    MaxId,      \* highest ordinal (65535)
    Groups,     \* keys of groups: names and languages
    MaxImages,  \* images in an icon
    MaxSteps,
    TRACKHI     \* FALSE: ordinals that were not allocated by the library are not noticed

VARIABLES
    images,  \* ordinal |-> token
    groups,  \* group |-> sequence of ordinals
    hi,      \* highest ordinal ever
    given,   \* group |-> tokens that were given, for groups that must be readable
    steps, last

avars == <<images, groups, hi, given, steps, last>>

Ids == 1..MaxId
Read(g) == [i \in 1..Len(groups[g]) |->
               IF groups[g][i] \in DOMAIN images THEN images[groups[g][i]] ELSE <<0, 0>>]
Readable(g) == \A i \in 1..Len(groups[g]) : groups[g][i] \in DOMAIN images

Init == /\ images = <<>> /\ groups = <<>> /\ hi = 0 /\ given = <<>> /\ steps = 0
        /\ last = <<"init">>

Token(i) == <<steps + 1, i>>
Restrict(f, S) == [x \in S |-> f[x]]
Max2(a, b) == IF a > b THEN a ELSE b

\* SetIcon, SetCursor: all or nothing
SetGroup(g, n) ==
    IF n > MaxId - hi
    THEN /\ last' = <<"full", g, n>>
         /\ UNCHANGED <<images, groups, hi, given>>
    ELSE /\ images' = [x \in DOMAIN images \cup (hi + 1)..(hi + n) |->
                          IF x > hi /\ x <= hi + n THEN Token(x - hi) ELSE images[x]]
         /\ groups' = (g :> [i \in 1..n |-> hi + i]) @@ groups
         /\ given' = (g :> [i \in 1..n |-> Token(i)]) @@ given
         /\ hi' = hi + n
         /\ last' = <<"set", g, n>>

Touch(id) == given' = Restrict(given, {g \in DOMAIN given : \A i \in 1..Len(groups[g]) : groups[g][i] # id})

\* What users do on their own: the groups they break are theirs
UserSet(id) == /\ images' = (id :> Token(0)) @@ images
               /\ Touch(id)
               /\ hi' = IF TRACKHI THEN Max2(hi, id) ELSE hi
               /\ last' = <<"userset", id>>
               /\ UNCHANGED groups

UserDel(id) == /\ id \in DOMAIN images
               /\ images' = Restrict(images, DOMAIN images \ {id})
               /\ Touch(id)
               /\ last' = <<"userdel", id>>
               /\ UNCHANGED <<groups, hi>>

DelGroup(g) == /\ g \in DOMAIN groups
               /\ groups' = Restrict(groups, DOMAIN groups \ {g})
               /\ given' = Restrict(given, DOMAIN given \ {g})
               /\ last' = <<"delgroup", g>>
               /\ UNCHANGED <<images, hi>>

\* Writing the set and loading it again: only what is still there counts
Reload == /\ hi' = IF TRACKHI THEN CHOOSE m \in {0} \cup DOMAIN images : \A x \in DOMAIN images : x <= m ELSE 0
          /\ last' = <<"reload">>
          /\ UNCHANGED <<images, groups, given>>

Step == \/ \E g \in Groups, n \in 0..MaxImages : SetGroup(g, n)
        \/ \E id \in Ids : UserSet(id) \/ UserDel(id)
        \/ \E g \in Groups : DelGroup(g)
        \/ Reload

Next == steps < MaxSteps /\ Step /\ steps' = steps + 1
Spec == Init /\ [][Next]_avars

\* Whatever was added reads back, unless its user changed it
Isolated == \A g \in DOMAIN given : g \in DOMAIN groups /\ Read(g) = given[g]
\* No ordinal is in two groups
Disjoint == \A g, h \in DOMAIN given : g # h =>
               \A i \in 1..Len(groups[g]), j \in 1..Len(groups[h]) : groups[g][i] # groups[h][j]
InRange == hi \in 0..MaxId /\ DOMAIN images \subseteq Ids
\* Adding a group changes no image that was there
KeepsOthers == [][last'[1] = "set" => \A x \in DOMAIN images : images'[x] = images[x]]_avars
=============================================================================
