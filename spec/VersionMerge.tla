---------------------------- MODULE VersionMerge ----------------------------
(***************************************************************************)
(* Explores VersionInfo on all small tables, and prints them for the       *)
(* driver to replay.                                                       *)
(***************************************************************************)
EXTENDS VersionInfo, Json

CONSTANTS Langs, Keys, Vals, MergeLangs

VARIABLES lt,   \* a table
          tr    \* what is merged: language |-> languages that its info has

Maps == UNION {[S -> Vals] : S \in (SUBSET Keys \ {{}})}
Tables == UNION {[S -> Maps] : S \in SUBSET Langs}
Trs == UNION {[S -> SUBSET MergeLangs] : S \in SUBSET MergeLangs}

Init == \/ lt \in Tables /\ tr = <<>>
        \/ lt = <<>> /\ tr \in Trs
Next == UNCHANGED <<lt, tr>>
Spec == Init /\ [][Next]_<<lt, tr>>

\* --- What is expected of the operators ----------------------------------------

\* Splitting completes every language with every key
SplitIsComplete == \A l \in DOMAIN lt : DOMAIN Completed(lt, l) = AllKeys(lt)
SplitKeepsOwn == \A l \in DOMAIN lt : \A k \in DOMAIN lt[l] : Completed(lt, l)[k] = lt[l][k]
\* Merging what was split gives the completed strings
MergeUndoesSplit == MergedTable(SplitTables(lt)) = [l \in DOMAIN lt |-> Completed(lt, l)]
\* and that is a fixed point
Idempotent == LET m == MergedTable(SplitTables(lt)) IN MergedTable(SplitTables(m)) = m

\* The tables of the infos to merge: one string per language, that says where it comes from
TrTables == [l \in DOMAIN tr |-> [x \in tr[l] |-> ("k" :> <<l, x>>)]]
MergeWithin == DOMAIN MergedTable(TrTables) \subseteq DOMAIN tr
MergePrefersOwn == \A l \in DOMAIN tr : l \in tr[l] => MergedTable(TrTables)[l]["k"] = <<l, l>>
SkipsOnlyUnclear == \A l \in DOMAIN tr : l \notin DOMAIN MergedTable(TrTables)
                        => (l \notin tr[l] /\ Neutral \notin tr[l] /\ Cardinality(tr[l]) # 1)

\* --- Cases --------------------------------------------------------------------

AsSeq(f) == LET RECURSIVE G(_) G(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<<<x, f[x]>>>> \o G(S \ {x})
            IN G(DOMAIN f)
PrintCase == PrintT(<<"CASE", ToJson([lt |-> AsSeq([l \in DOMAIN lt |-> AsSeq(lt[l])]), tr |-> AsSeq(tr)])>>)
=============================================================================
