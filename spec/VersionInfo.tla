----------------------------- MODULE VersionInfo -----------------------------
(***************************************************************************)
(* Version information (package version): numbers, flags, a type, a date   *)
(* and strings in several languages.                                       *)
(*                                                                         *)
(* A table maps languages to strings: language |-> (key |-> value).        *)
(* An info is a record: fv, pv (file and product versions), fl (flags), ty *)
(* (type), ts (date) and lt (table).                                       *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

Neutral == 0
EnUS == 1033

LowestOf(S) == CHOOSE x \in S : \A y \in S : x <= y

\* --- Strings (C18) -----------------------------------------------------------

PutString(lt, l, k, v) ==
    (l :> (IF l \in DOMAIN lt THEN (k :> v) @@ lt[l] ELSE (k :> v))) @@ lt

\* In every language, or in the neutral one if there is none
PutEverywhere(lt, k, v) ==
    IF DOMAIN lt = {} THEN (Neutral :> (k :> v))
    ELSE [l \in DOMAIN lt |-> (k :> v) @@ lt[l]]

\* --- Translations (C19) -------------------------------------------------------

\* The language a missing key is taken from: neutral, else en-US, else the lowest
SourceOf(lt, k) ==
    LET has == {l \in DOMAIN lt : k \in DOMAIN lt[l]}
    IN  IF Neutral \in has THEN Neutral ELSE IF EnUS \in has THEN EnUS ELSE LowestOf(has)

AllKeys(lt) == UNION {DOMAIN lt[l] : l \in DOMAIN lt}

Completed(lt, l) == [k \in AllKeys(lt) |-> IF k \in DOMAIN lt[l] THEN lt[l][k] ELSE lt[SourceOf(lt, k)][k]]

SplitTables(lt) == [l \in DOMAIN lt |-> (l :> Completed(lt, l))]

\* The main one of a set of languages
MainOf(S) == IF Neutral \in S THEN Neutral ELSE IF EnUS \in S THEN EnUS ELSE LowestOf(S)

Full(lt) == {l \in DOMAIN lt : DOMAIN lt[l] # {}}

\* The strings that a translation for language l gives, or <<>> if it gives none
Given(lt, l) == IF l \in Full(lt) THEN <<lt[l]>>
                ELSE IF Neutral \in Full(lt) THEN <<lt[Neutral]>>
                ELSE IF Cardinality(Full(lt)) = 1 THEN <<lt[CHOOSE x \in Full(lt) : TRUE]>>
                ELSE <<>>

\* tr: language |-> table
MergedTable(tr) == [l \in {x \in DOMAIN tr : Given(tr[x], x) # <<>>} |-> Given(tr[l], l)[1]]

\* Languages that have no string do not count
Trimmed(lt) == [l \in Full(lt) |-> lt[l]]
=============================================================================
