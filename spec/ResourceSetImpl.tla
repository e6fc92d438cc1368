-------------------------- MODULE ResourceSetImpl --------------------------
(***************************************************************************)
(* The design of the resource set as the code builds it: nested maps, with *)
(* a cached order of the keys at the resource and language levels          *)
(* (typeEntry.orderedKeys, resourceEntry.orderedKeys), that mutations must *)
(* invalidate, and observations fill.                                      *)
(*                                                                         *)
(* Checked by TLC: it refines ResourceSet, i.e. every observation answers  *)
(* what ResourceSet requires, whatever the history.                        *)
(*                                                                         *)
(* REFRESH says whether ordering a type that is already ordered still      *)
(* orders the languages of its resources.  With REFRESH = FALSE, which was *)
(* the code before commit "fix: languages added to...", TLC finds the      *)
(* history that loses a resource.                                          *)
(***************************************************************************)
EXTENDS ResourceSet

CONSTANTS Types, Ress, Langs, Datas, REFRESH

VARIABLES
    types,    \* type |-> [res |-> (resource |-> [data |-> (lang |-> data), keys]), keys]
    content,  \* the abstract set
    out       \* answer of the last observation: <<op, argument, sequence of entries>>

vars == <<types, content, out>>

NoKeys == [ok |-> FALSE, s |-> <<>>]
Cached(s) == [ok |-> TRUE, s |-> s]

Init == types = EmptySet /\ content = EmptySet /\ out = <<"none">>

Keys == Types \X Ress \X Langs

\* set()
DoSet(t, r, l, d) ==
    LET te  == IF t \in DOMAIN types THEN types[t] ELSE [res |-> EmptySet, keys |-> NoKeys]
        newR == r \notin DOMAIN te.res
        re  == IF newR THEN [data |-> EmptySet, keys |-> NoKeys] ELSE te.res[r]
        re2 == [data |-> (l :> d) @@ re.data,
                keys |-> IF l \in DOMAIN re.data THEN re.keys ELSE NoKeys]
        te2 == [res |-> (r :> re2) @@ te.res,
                keys |-> IF newR THEN NoKeys ELSE te.keys]
    IN  /\ types' = (t :> te2) @@ types
        /\ content' = AfterSet(content, <<t, r, l>>, FALSE, d)
        /\ out' = <<"none">>

\* delete()
DoDelete(t, r, l) ==
    /\ content' = AfterSet(content, <<t, r, l>>, TRUE, 0)
    /\ out' = <<"none">>
    /\ IF t \notin DOMAIN types \/ r \notin DOMAIN types[t].res
       THEN types' = types
       ELSE LET te  == types[t]
                re  == te.res[r]
                data == [x \in DOMAIN re.data \ {l} |-> re.data[x]]
                te2 == IF DOMAIN data # {}
                       THEN [te EXCEPT !.res[r] = [data |-> data, keys |-> NoKeys]]
                       ELSE [res |-> [x \in DOMAIN te.res \ {r} |-> te.res[x]], keys |-> NoKeys]
            IN  types' = IF DOMAIN te2.res # {}
                         THEN [types EXCEPT ![t] = te2]
                         ELSE [x \in DOMAIN types \ {t} |-> types[x]]

RECURSIVE SortedIdents(_)
SortedIdents(S) == IF S = {} THEN <<>>
                   ELSE LET m == CHOOSE x \in S : \A y \in S \ {x} : SeqLT(x, y)
                        IN <<m>> \o SortedIdents(S \ {m})
RECURSIVE SortedInts(_)
SortedInts(S) == IF S = {} THEN <<>> ELSE <<MinOf(S)>> \o SortedInts(S \ {MinOf(S)})

\* resourceEntry.order(), typeEntry.order()
OrderRes(re) == IF re.keys.ok THEN re ELSE [re EXCEPT !.keys = Cached(SortedInts(DOMAIN re.data))]
OrderType(te) ==
    IF te.keys.ok
    THEN IF REFRESH THEN [te EXCEPT !.res = [r \in DOMAIN te.res |-> OrderRes(te.res[r])]] ELSE te
    ELSE [res |-> [r \in DOMAIN te.res |-> OrderRes(te.res[r])], keys |-> Cached(SortedIdents(DOMAIN te.res))]

RECURSIVE Flatten(_)
Flatten(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Flatten(Tail(s))

\* unordered keys are a nil slice in the code: nothing is listed
EntriesOf(t, te) ==
    Flatten([i \in 1..Len(te.keys.s) |->
        LET r == te.keys.s[i] re == te.res[r]
        IN  [j \in 1..Len(re.keys.s) |-> [t |-> t, r |-> r, l |-> re.keys.s[j], d |-> re.data[re.keys.s[j]]]]])

DoWalk ==
    LET ts == [t \in DOMAIN types |-> OrderType(types[t])]
        order == SortedIdents(DOMAIN ts)
    IN  /\ types' = ts
        /\ out' = <<"walk", <<>>, Flatten([i \in 1..Len(order) |-> EntriesOf(order[i], ts[order[i]])])>>
        /\ UNCHANGED content

DoWalkType(t) ==
    /\ IF t \in DOMAIN types
       THEN LET te == OrderType(types[t])
            IN  types' = [types EXCEPT ![t] = te] /\ out' = <<"walktype", t, EntriesOf(t, te)>>
       ELSE types' = types /\ out' = <<"walktype", t, <<>>>>
    /\ UNCHANGED content

\* GetIcon orders the languages of a group, without ordering its type (firstLang)
DoFirstLang(t, r) ==
    /\ t \in DOMAIN types /\ r \in DOMAIN types[t].res
    /\ types' = [types EXCEPT ![t].res[r] = OrderRes(types[t].res[r])]
    /\ out' = <<"firstlang", <<t, r>>, Head(types'[t].res[r].keys.s)>>
    /\ UNCHANGED content

Next ==
    \/ \E t \in Types, r \in Ress, l \in Langs : DoDelete(t, r, l) \/ \E d \in Datas : DoSet(t, r, l, d)
    \/ DoWalk
    \/ \E t \in Types : DoWalkType(t) \/ \E r \in Ress : DoFirstLang(t, r)

Spec == Init /\ [][Next]_vars

\* The nested maps hold the abstract map...
Abs == [k \in {<<t, r, l>> \in Keys : t \in DOMAIN types /\ r \in DOMAIN types[t].res /\ l \in DOMAIN types[t].res[r].data}
          |-> types[k[1]].res[k[2]].data[k[3]]]
Refines == Abs = content
NoEmptyBranch == \A t \in DOMAIN types : DOMAIN types[t].res # {} /\ \A r \in DOMAIN types[t].res : DOMAIN types[t].res[r].data # {}
\* ... a cached order is never stale...
NoStaleOrder == \A t \in DOMAIN types :
    /\ types[t].keys.ok => types[t].keys.s = SortedIdents(DOMAIN types[t].res)
    /\ \A r \in DOMAIN types[t].res : types[t].res[r].keys.ok =>
            types[t].res[r].keys.s = SortedInts(DOMAIN types[t].res[r].data)
\* ... and every enumeration is the canonical one.
WalkIsCanonical ==
    /\ out[1] = "walk" => WalkAnswers(content, out[3], 0)
    /\ out[1] = "walktype" => WalkTypeAnswers(content, out[2], out[3], 0)
    /\ out[1] = "firstlang" => out[3] = MinOf({k[3] : k \in {x \in DOMAIN content : x[1] = out[2][1] /\ x[2] = out[2][2]}})
=============================================================================
