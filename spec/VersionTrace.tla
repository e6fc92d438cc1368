---------------------------- MODULE VersionTrace ----------------------------
(***************************************************************************)
(* Sessions on version information: C17 (binary form), C18 (strings and    *)
(* versions), C19 (splitting and merging), C20 (JSON).                     *)
(***************************************************************************)
EXTENDS TraceBase, VersionRecords

CONSTANT Props

VARIABLE infos   \* slot |-> info

vvars == <<sid, pos, infos>>

J(p, cond) == (p \in Props => cond) = TRUE

After == Info(ev.after)
Slot(i, x) == infos' = (i :> x) @@ infos

\* The driver made an info, by assigning its fields, or by decoding it; that is not judged
Made == IsEvent("made") /\ Slot(ev.i, After)

\* --- C18 ------------------------------------------------------------------------

HasNUL(s) == \E i \in 1..Len(s) : s[i] = 0

Set == /\ IsEvent("vset")
       /\ LET x == infos[ev.i]
              bad == ev.key = <<>> \/ HasNUL(ev.key) \/ HasNUL(ev.val)
              y == IF bad THEN x ELSE [x EXCEPT !.lt = PutString(@, ev.l, ev.key, ev.val)]
          IN  /\ J("C18", ev.err = bad /\ SameInfo(After, y))
              /\ Slot(ev.i, y)

IsDigit(c) == c >= 48 /\ c <= 57
RECURSIVE Skip(_)
Skip(s) == IF s = <<>> THEN <<>> ELSE IF IsDigit(Head(s)) THEN s ELSE Skip(Tail(s))
\* n: numbers so far, the last one being read
RECURSIVE Numbers(_, _)
Numbers(s, n) ==
    IF s = <<>> THEN n
    ELSE IF IsDigit(Head(s)) THEN Numbers(Tail(s), [n EXCEPT ![Len(n)] = 10 * @ + Head(s) - 48])
    ELSE IF Head(s) = 46 /\ Len(n) < 4 THEN Numbers(Tail(s), Append(n, 0))
    ELSE n
\* (numbers above 65535 are not versions; they are not judged)
ParseVersion(s) == LET n == Numbers(Skip(s), <<0>>) IN [i \in 1..4 |-> IF i <= Len(n) THEN n[i] ELSE 0]

FileVersionKey == <<70, 105, 108, 101, 86, 101, 114, 115, 105, 111, 110>>
ProductVersionKey == <<80, 114, 111, 100, 117, 99, 116, 86, 101, 114, 115, 105, 111, 110>>

SetVersion ==
    /\ IsEvent("setversion")
    /\ LET x == infos[ev.i]
           v == ParseVersion(ev.text)
           y == IF ev.product
                THEN [x EXCEPT !.pv = v, !.lt = PutEverywhere(@, ProductVersionKey, ev.text)]
                ELSE [x EXCEPT !.fv = v, !.lt = PutEverywhere(@, FileVersionKey, ev.text)]
       IN  /\ J("C18", SameInfo(After, y))
           /\ Slot(ev.i, y)

\* The table was read, the copy modified, and the info observed again
Table2 == /\ IsEvent("table")
          /\ J("C18", Trimmed(TableOf(ev.t)) = Trimmed(infos[ev.i].lt) /\ SameInfo(After, infos[ev.i]))
          /\ UNCHANGED infos

\* --- C17 ------------------------------------------------------------------------

ToBytes ==
    /\ IsEvent("bytes")
    /\ J("C17", /\ WellFormed(ev.b) /\ ev.again
                /\ Says(TreeInfo(ev.b), infos[ev.i])
                /\ TreeLangs(ev.b) \subseteq DOMAIN infos[ev.i].lt
                /\ SameInfo(After, infos[ev.i]))
    /\ UNCHANGED infos

\* Parses a block, own or from another tool
Parse ==
    /\ IsEvent("parse")
    /\ J("C17", ~ev.err /\ Says(TreeInfo(ev.b), After) /\ ~After.rem)
    /\ Slot(ev.i, After)

\* Parses the bytes of an info
RoundTrip ==
    /\ IsEvent("roundtrip")
    /\ LET x == infos[ev.from] IN
       J("C17", /\ ~ev.err /\ ~After.rem
                /\ After.fv = x.fv /\ After.pv = x.pv /\ After.fl = x.fl /\ After.ty = x.ty
                /\ SameTick(x, After.tk) /\ (x.ts = <<>>) = (After.ts = <<>>)
                /\ Trimmed(After.lt) = Trimmed(x.lt))
    /\ Slot(ev.i, After)

\* --- C19 ------------------------------------------------------------------------

Results(out) == LET f == Fun(out) IN [l \in DOMAIN f |-> Info(f[l])]

Split ==
    /\ IsEvent("split")
    /\ LET x == infos[ev.i]
           out == Results(ev.out)
       IN  /\ J("C19", /\ SameInfo(After, x)
                       /\ DOMAIN out = DOMAIN x.lt
                       /\ \A l \in DOMAIN out : /\ Fixed(out[l]) = Fixed(x)
                                                /\ DOMAIN out[l].lt \subseteq {l}
                                                /\ Trimmed(out[l].lt) = Trimmed(SplitTables(x.lt)[l]))
           /\ infos' = [i \in {ev.to + l : l \in DOMAIN out} |-> out[i - ev.to]] @@ infos

\* What infos say is their own: nothing done to the results, or to the source, of an operation shows in the others
Look ==
    /\ IsEvent("look")
    /\ J("C19", SameInfo(After, infos[ev.i]))
    /\ UNCHANGED infos

\* in: pairs of a language and a slot
Merge ==
    /\ IsEvent("merge")
    /\ LET tr == Fun(ev.in)
           tables == [l \in DOMAIN tr |-> infos[tr[l]].lt]
           y == IF DOMAIN tr = {} THEN ZeroInfo
                ELSE [infos[tr[MainOf(DOMAIN tr)]] EXCEPT !.lt = MergedTable(tables)]
       IN  /\ J("C19", /\ SameInfo(After, y)
                       /\ \A i \in 1..Len(ev.in) : SameInfo(Info(ev.still[i]), infos[tr[ev.in[i][1]]]))
           /\ Slot(ev.i, y)

Main ==
    /\ IsEvent("main")
    /\ LET x == infos[ev.i].lt IN
       J("C19", Fun(ev.out) = IF DOMAIN x = {} THEN <<>> ELSE x[MainOf(DOMAIN x)])
    /\ UNCHANGED infos

\* --- C20 ------------------------------------------------------------------------

\* Marshals an info, and decodes the text over another one
Json ==
    /\ IsEvent("json")
    /\ J("C20", /\ ~ev.merr /\ ~ev.uerr /\ ev.again
                /\ SameInfo(After, infos[ev.from])
                /\ SameInfo(Info(ev.still), infos[ev.from]))
    /\ Slot(ev.i, IF ev.uerr THEN infos[ev.from] ELSE After)

\* Decodes a text that the driver made from a description: doc
FlagNames == <<"debug", "prerelease", "patched", "privatebuild", "specialbuild">>
\* doc.flags, doc.type: in small letters; absent parts are empty
DocInfo(d) ==
    [fv |-> IF d.fv = <<>> THEN ZeroVersion ELSE d.fv,
     pv |-> IF d.pv = <<>> THEN ZeroVersion ELSE d.pv,
     fl |-> [i \in 1..5 |-> FlagNames[i] \in ToSet(d.flags)],
     ty |-> IF d.type \in {"", "app"} THEN 0 ELSE IF d.type = "dll" THEN 1 ELSE 2,
     ts |-> d.ts, tk |-> <<>>, rem |-> FALSE, lt |-> TableOf(d.lt)]

UnJson ==
    /\ IsEvent("unjson")
    /\ J("C20", ~ev.err /\ SameInfo(After, DocInfo(ev.doc)))
    /\ Slot(ev.i, After)

Init == TraceInit /\ infos = <<>>
Done == TraceDone /\ UNCHANGED infos
Next == \/ Made \/ Set \/ SetVersion \/ Table2 \/ ToBytes \/ Parse \/ RoundTrip \/ Split \/ Look \/ Merge \/ Main \/ Json \/ UnJson
        \/ Done
Spec == Init /\ [][Next]_vvars
=============================================================================
