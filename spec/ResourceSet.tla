---------------------------- MODULE ResourceSet ----------------------------
(***************************************************************************)
(* The resource set, as its users see it (winres.go): a finite map from    *)
(* keys <<type, resource, language>> to data.                              *)
(*                                                                         *)
(* This module only has operators: the effect of every call on the map,    *)
(* and what every observation may answer.  ResourceSetMC explores them,    *)
(* ResourceSetImpl refines them, ResourceSetTrace binds them to the code.  *)
(***************************************************************************)
EXTENDS Ident, TLC

EmptySet == <<>>      \* the function with an empty domain

Put(c, k, d) == (k :> d) @@ c
Without(c, k) == [x \in DOMAIN c \ {k} |-> c[x]]

ValidKey(k) == ValidIdent(k[1]) /\ ValidIdent(k[2])

\* Set(t, r, l, data): nil data deletes, invalid identifiers change nothing.
AfterSet(c, k, isNil, d) ==
    IF ~ValidKey(k) THEN c
    ELSE IF isNil THEN Without(c, k)
    ELSE Put(c, k, d)

SetFails(k) == ~ValidKey(k)

GetAnswers(c, k, isNil, d) ==
    IF k \in DOMAIN c THEN ~isNil /\ d = c[k] ELSE isNil

CountAnswers(c, n) == n = Cardinality(DOMAIN c)

\* e is an entry of an enumeration: a record with fields t, r, l, d
KeyOf(e) == <<e.t, e.r, e.l>>

Ascending(out) == \A i \in 1..(Len(out) - 1) : KeyLT(KeyOf(out[i]), KeyOf(out[i+1]))

\* An enumeration of the part K of the set, that stops after `stop' calls (0: never).
EnumAnswers(c, K, out, stop) ==
    LET seen == {KeyOf(out[i]) : i \in 1..Len(out)}
    IN  /\ Ascending(out)
        /\ seen \subseteq K
        /\ \A i \in 1..Len(out) : out[i].d = c[KeyOf(out[i])]
        /\ IF stop = 0 \/ stop >= Cardinality(K)
           THEN Cardinality(seen) = Cardinality(K)
           ELSE /\ Len(out) = stop
                /\ \A k \in K \ seen : KeyLT(KeyOf(out[stop]), k)

WalkAnswers(c, out, stop) == EnumAnswers(c, DOMAIN c, out, stop)
WalkTypeAnswers(c, t, out, stop) == EnumAnswers(c, {k \in DOMAIN c : k[1] = t}, out, stop)

\* The canonical enumeration itself.
RECURSIVE Canonical(_)
Canonical(K) ==
    IF K = {} THEN <<>>
    ELSE LET m == CHOOSE k \in K : \A k2 \in K \ {k} : KeyLT(k, k2)
         IN  <<m>> \o Canonical(K \ {m})

\* The map that an enumeration lists
ContentOf(out) == [k \in {KeyOf(out[i]) : i \in 1..Len(out)} |->
                     LET i == CHOOSE i \in 1..Len(out) : KeyOf(out[i]) = k IN out[i].d]
=============================================================================
