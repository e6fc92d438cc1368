----------------------------- MODULE RsrcLayout -----------------------------
(***************************************************************************)
(* How the resource directory is written (rsrc.go): six phases, each of    *)
(* which writes things at the current position, and promises positions to  *)
(* things that later phases write.  Two independent computations must      *)
(* agree: the promises (off), and where things end up (pos).               *)
(*                                                                         *)
(*   types -> ress -> langs -> index -> names -> data -> done              *)
(*                                                                         *)
(* Types and resources are numbered in canonical order; those in NameIds   *)
(* are names, the others are ordinals.                                     *)
(***************************************************************************)
EXTENDS Ident, SequencesExt, TLC, Json

CONSTANTS
    Types, Ress, Langs,   \* numbers
    Sizes,                \* data sizes
    NameIds,              \* which numbers are names
    NamesOnRoot           \* the names are padded for the data that follows (TRUE in the code)

VARIABLES
    set,      \* the resource set: <<type, res, lang>> |-> data size
    phase,
    pos,      \* bytes written
    off,      \* next promised position
    placed,   \* set of [k, s, e]: things, where they were written
    promised, \* set of [k, s]: where they were promised to be
    relocs    \* positions in the relocation table

vars == <<set, phase, pos, off, placed, promised, relocs>>

Keys == Types \X Ress \X Langs
Align(n) == ((n + 7) \div 8) * 8

T(S) == {k[1] : k \in DOMAIN S}
R(S, t) == {k[2] : k \in {x \in DOMAIN S : x[1] = t}}
L(S, t, r) == {k[3] : k \in {x \in DOMAIN S : x[1] = t /\ x[2] = r}}
Asc(X) == SetToSortSeq(X, LAMBDA a, b : a < b)

TableSize(n) == 16 + 8 * n

\* every <<t, r>>, in order; every leaf, in order
TR(S) == SetToSortSeq({<<k[1], k[2]>> : k \in DOMAIN S}, LAMBDA a, b : a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2]))
Leaf(S) == SetToSortSeq(DOMAIN S, LAMBDA a, b :
              a[1] < b[1] \/ (a[1] = b[1] /\ (a[2] < b[2] \/ (a[2] = b[2] /\ a[3] < b[3]))))

\* Names are stored once, whatever the level: number n is one string of n characters
Names(S) == Asc({n \in T(S) \cup UNION {R(S, t) : t \in T(S)} : n \in NameIds})
NameBytes(n) == 2 + 2 * n
NamesSize(S) == FoldLeft(LAMBDA a, n : a + NameBytes(n), 0, Names(S))

\* The size of tables and data entries, as the code computes it before writing
DirSize(S) == TableSize(Cardinality(T(S)))
              + FoldLeft(LAMBDA a, t : a + TableSize(Cardinality(R(S, t))), 0, Asc(T(S)))
              + FoldLeft(LAMBDA a, x : a + TableSize(Cardinality(L(S, x[1], x[2]))), 0, TR(S))
              + 16 * Cardinality(DOMAIN S)
PaddedNames(S) == IF NamesOnRoot THEN Align(DirSize(S) + NamesSize(S)) - DirSize(S) ELSE NamesSize(S)
FullSize(S) == DirSize(S) + PaddedNames(S) + FoldLeft(LAMBDA a, k : a + Align(S[k]), 0, Leaf(S))

\* Places, or promises, a sequence of things [k, n (size), w (size with padding)] one after another
Spread(at, things) ==
    FoldLeft(LAMBDA acc, x : [at |-> acc.at + x.w, out |-> acc.out \cup {[k |-> x.k, s |-> acc.at, e |-> acc.at + x.n]}],
             [at |-> at, out |-> {}], things)

Map(s, op(_)) == [i \in 1..Len(s) |-> op(s[i])]
Thing(k, n) == [k |-> k, n |-> n, w |-> n]

RootTable == <<Thing(<<"root">>, TableSize(Cardinality(T(set))))>>
TypeTables == Map(Asc(T(set)), LAMBDA t : Thing(<<"type", t>>, TableSize(Cardinality(R(set, t)))))
ResTables == Map(TR(set), LAMBDA x : Thing(<<"res", x[1], x[2]>>, TableSize(Cardinality(L(set, x[1], x[2])))))
Entries == Map(Leaf(set), LAMBDA k : Thing(<<"entry", k>>, 16))
NameStrings == Map(Names(set), LAMBDA n : Thing(<<"name", n>>, NameBytes(n)))
Blocks == Map(Leaf(set), LAMBDA k : [k |-> <<"data", k>>, n |-> set[k], w |-> Align(set[k])])

Write(things) == LET r == Spread(pos, things) IN pos' = r.at /\ placed' = placed \cup r.out
Promise(from, things) == LET r == Spread(from, things)
                         IN  off' = r.at /\ promised' = promised \cup {[k |-> x.k, s |-> x.s] : x \in r.out}

Init == /\ \E D \in SUBSET Keys : set \in [D -> Sizes]
        /\ phase = "types" /\ pos = 0 /\ off = 0 /\ placed = {} /\ relocs = {}
        \* names are given their position before anything is written
        /\ promised = {[k |-> x.k, s |-> x.s] : x \in Spread(DirSize(set), NameStrings).out}

WriteTypes == /\ phase = "types" /\ phase' = "ress"
              /\ Write(RootTable)
              /\ Promise(TableSize(Cardinality(T(set))), TypeTables)
              /\ UNCHANGED <<set, relocs>>
WriteRess == /\ phase = "ress" /\ phase' = "langs"
             /\ Write(TypeTables) /\ Promise(off, ResTables)
             /\ UNCHANGED <<set, relocs>>
WriteLangs == /\ phase = "langs" /\ phase' = "index"
              /\ Write(ResTables) /\ Promise(off, Entries)
              /\ relocs' = {x.s : x \in Spread(off, Entries).out}
              /\ UNCHANGED set
WriteIndex == /\ phase = "index" /\ phase' = "names"
              /\ Write(Entries) /\ Promise(off + PaddedNames(set), Blocks)
              /\ UNCHANGED <<set, relocs>>
WriteNames == /\ phase = "names" /\ phase' = "data"
              /\ LET r == Spread(pos, NameStrings)
                 IN  pos' = pos + PaddedNames(set) /\ placed' = placed \cup r.out
              /\ UNCHANGED <<set, off, promised, relocs>>
WriteData == /\ phase = "data" /\ phase' = "done"
             /\ Write(Blocks)
             /\ UNCHANGED <<set, off, promised, relocs>>

Next == WriteTypes \/ WriteRess \/ WriteLangs \/ WriteIndex \/ WriteNames \/ WriteData
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* What was written is where it was promised to be
PromisesKept == \A x \in placed : \A p \in promised : p.k = x.k => p.s = x.s

Overlap(x, y) == x.k # y.k /\ x.s < y.e /\ y.s < x.e
NoOverlap == \A x, y \in placed : ~Overlap(x, y)

Complete == phase = "done" =>
    /\ {x.k : x \in placed} = {p.k : p \in promised} \cup {<<"root">>}
    /\ pos = FullSize(set)
    /\ \A x \in placed : x.e <= pos
    /\ relocs = {x.s : x \in {y \in placed : y.k[1] = "entry"}}
    /\ Cardinality(relocs) = Cardinality(DOMAIN set)

Aligned == \A x \in placed :
    /\ x.k[1] \in {"root", "type", "res", "entry"} => x.s % 4 = 0
    /\ x.k[1] = "data" => x.s % 8 = 0

\* For generation: prints every set
PrintCase == phase = "types" =>
    PrintT(<<"CASE", ToJson(Map(Leaf(set), LAMBDA k : [t |-> k[1], r |-> k[2], l |-> k[3], n |-> set[k]]))>>)
GenSpec == Init /\ [][FALSE]_vars
=============================================================================
