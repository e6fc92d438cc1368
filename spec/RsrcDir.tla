------------------------------ MODULE RsrcDir ------------------------------
(***************************************************************************)
(* The resource directory of Windows executables (section ".rsrc"), as a   *)
(* relation between bytes and resources: tables, name strings, data        *)
(* entries and data blocks.                                                *)
(*                                                                         *)
(* b is the beginning of the section, long enough to hold all tables,      *)
(* names and data entries. Offsets are relative to the section.            *)
(***************************************************************************)
EXTENDS Ident, Bytes, SequencesExt

-----------------------------------------------------------------------------
(* UTF-16 *)

IsHigh(u) == u >= 55296 /\ u < 56320
IsLow(u)  == u >= 56320 /\ u < 57344

\* Code points of a sequence of UTF-16 units (unpaired surrogates count as U+FFFD)
FromUTF16(us) ==
    LET first(i) == IsHigh(us[i]) /\ i < Len(us) /\ IsLow(us[i + 1])
        second(i) == i > 1 /\ IsHigh(us[i - 1]) /\ IsLow(us[i])
        cp(i) == IF first(i) THEN 65536 + (us[i] - 55296) * 1024 + (us[i + 1] - 56320)
                 ELSE IF IsHigh(us[i]) \/ IsLow(us[i]) THEN 65533
                 ELSE us[i]
        idx == SelectSeq([i \in 1..Len(us) |-> i], LAMBDA i : ~second(i))
    IN  [j \in 1..Len(idx) |-> cp(idx[j])]

-----------------------------------------------------------------------------
(* Tables *)

NNamed(b, o) == U16(b, o + 12)
NEntries(b, o) == U16(b, o + 12) + U16(b, o + 14)
EntryPos(o, i) == o + 16 + 8 * (i - 1)
TableFits(b, o) == In(b, o, 16) /\ In(b, o, 16 + 8 * NEntries(b, o))
TableEnd(b, o) == o + 16 + 8 * NEntries(b, o)

IsNamed(b, o, i) == Top(b, EntryPos(o, i))
NamePos(b, o, i) == U31(b, EntryPos(o, i))
NameFits(b, n) == In(b, n, 2) /\ In(b, n, 2 + 2 * U16(b, n))
NameEnd(b, n) == n + 2 + 2 * U16(b, n)
NameAt(b, n) == <<0>> \o FromUTF16([i \in 1..U16(b, n) |-> U16(b, n + 2 * i)])
IdentAt(b, o, i) == IF IsNamed(b, o, i) THEN NameAt(b, NamePos(b, o, i)) ELSE <<1, U31(b, EntryPos(o, i))>>
Target(b, o, i) == U31(b, EntryPos(o, i) + 4)
IsSub(b, o, i) == Top(b, EntryPos(o, i) + 4)

\* Entries come in canonical order: names, then ordinals, strictly ascending
TableOrdered(b, o) ==
    LET ids == [i \in 1..NEntries(b, o) |-> IdentAt(b, o, i)]
    IN  \A i \in 1..(Len(ids) - 1) : SeqLT(ids[i], ids[i + 1])

\* leaf: the level of languages
TableValid(b, o, leaf) ==
    /\ TableFits(b, o)
    /\ \A i \in 1..NEntries(b, o) :
          /\ IsNamed(b, o, i) <=> i <= NNamed(b, o)
          /\ IsSub(b, o, i) <=> ~leaf
          /\ IF IsNamed(b, o, i)
             THEN ~leaf /\ NameFits(b, NamePos(b, o, i)) /\ U16(b, NamePos(b, o, i)) > 0
             ELSE U31(b, EntryPos(o, i)) <= 65535 /\ (leaf \/ U31(b, EntryPos(o, i)) > 0)
          /\ IF leaf THEN In(b, Target(b, o, i), 16) ELSE TRUE
    /\ Cardinality({IdentAt(b, o, i) : i \in 1..NEntries(b, o)}) = NEntries(b, o)

-----------------------------------------------------------------------------
(* Broken directories: something is not in the section, is not at the      *)
(* right depth, or a language has a name. Everything else is left to the   *)
(* reader's discretion.                                                    *)

TableBroken(b, o, leaf) ==
    \/ ~TableFits(b, o)
    \/ \E i \in 1..NEntries(b, o) :
          \/ IsSub(b, o, i) <=> leaf
          \/ IsNamed(b, o, i) /\ (leaf \/ ~NameFits(b, NamePos(b, o, i)))

EntryBroken(b, va, size, e) ==
    \/ ~In(b, e, 16)
    \/ Top(b, e) \/ Top(b, e + 4)
    \/ U31(b, e) < va \/ U31(b, e) - va > size \/ U31(b, e + 4) > size - (U31(b, e) - va)

LangsBroken(b, va, size, o) ==
    TableBroken(b, o, TRUE) \/ \E i \in 1..NEntries(b, o) : EntryBroken(b, va, size, Target(b, o, i))

TypeBroken(b, va, size, o) ==
    TableBroken(b, o, FALSE) \/ \E i \in 1..NEntries(b, o) : LangsBroken(b, va, size, Target(b, o, i))

\* Broken on the way to the types that are wanted
DirBroken(b, va, size, Wanted(_)) ==
    TableBroken(b, 0, FALSE)
    \/ \E i \in 1..NEntries(b, 0) : Wanted(IdentAt(b, 0, i)) /\ TypeBroken(b, va, size, Target(b, 0, i))

-----------------------------------------------------------------------------
(* The whole directory *)

TypeTables(b) == {Target(b, 0, i) : i \in 1..NEntries(b, 0)}
ResTables(b)  == UNION {{Target(b, o, i) : i \in 1..NEntries(b, o)} : o \in TypeTables(b)}

\* All tables are well-formed. va: virtual address that data addresses are relative to; size: size of the section
DirValid(b, va, size) ==
    /\ TableValid(b, 0, FALSE)
    /\ \A o \in TypeTables(b) : TableValid(b, o, FALSE)
    /\ \A o \in ResTables(b) :
          /\ TableValid(b, o, TRUE)
          /\ \A i \in 1..NEntries(b, o) :
                LET e == Target(b, o, i)
                    off == U31(b, e) - va
                IN  /\ ~Top(b, e) /\ ~Top(b, e + 4)
                    /\ off >= 0 /\ off <= size /\ U31(b, e + 4) <= size - off

\* Every resource: its key, the position of its data entry, and where its data is in the section
Leaves(b, va) ==
    UNION {
        LET o1 == Target(b, 0, i)
            t == IdentAt(b, 0, i)
        IN  UNION {
            LET o2 == Target(b, o1, j)
                r == IdentAt(b, o1, j)
            IN  {LET e == Target(b, o2, k)
                 IN  [k |-> <<t, r, U31(b, EntryPos(o2, k))>>, e |-> e, o |-> U31(b, e) - va, n |-> U31(b, e + 4)]
                 : k \in 1..NEntries(b, o2)}
            : j \in 1..NEntries(b, o1)}
        : i \in 1..NEntries(b, 0)}

\* The directory lists exactly the resources of c. blocks: a set of <<offset, size, digest>>
DirHolds(b, va, blocks, c) ==
    LET L == Leaves(b, va)
    IN  /\ Cardinality(L) = Cardinality(DOMAIN c)
        /\ \A x \in L : x.k \in DOMAIN c /\ <<x.o, x.n, c[x.k]>> \in blocks
        /\ {x.k : x \in L} = DOMAIN c

\* No two regions overlap (a region is a tuple that starts with its start and its end)
Disjoint(regions) ==
    LET s == SetToSortSeq({r \in regions : r[1] < r[2]},
                          LAMBDA x, y : x[1] < y[1] \/ (x[1] = y[1] /\ x[2] < y[2]))
    IN  \A i \in 1..(Len(s) - 1) : s[i][2] <= s[i + 1][1]

AllTables(b) == {0} \cup TypeTables(b) \cup ResTables(b)
AllNames(b) ==
    UNION {{NamePos(b, o, i) : i \in {j \in 1..NEntries(b, o) : IsNamed(b, o, j)}} : o \in {0} \cup TypeTables(b)}

Regions(b, va) ==
    LET L == Leaves(b, va)
    IN  {<<o, TableEnd(b, o), 1>> : o \in AllTables(b)}
        \cup {<<n, NameEnd(b, n), 2>> : n \in AllNames(b)}
        \cup {<<x.e, x.e + 16, 3>> : x \in L}
        \cup {<<x.o, x.o + x.n, 4>> : x \in L}

\* As written by this library: canonical order, nothing shared (except names), everything aligned
DirCanonical(b, va) ==
    LET L == Leaves(b, va)
        nonEmpty == {x \in L : x.n > 0}
    IN  /\ \A o \in AllTables(b) : TableOrdered(b, o) /\ o % 4 = 0
        /\ \A x \in L : x.e % 4 = 0 /\ (x.n > 0 => x.o % 8 = 0)
        /\ Cardinality(AllTables(b)) = 1 + NEntries(b, 0) + FoldSet(LAMBDA o, n : n + NEntries(b, o), 0, TypeTables(b))
        /\ Cardinality({x.e : x \in L}) = Cardinality(L)
        /\ Cardinality({x.o : x \in nonEmpty}) = Cardinality(nonEmpty)
        /\ Disjoint(Regions(b, va))

\* End of the last thing the directory designates
DirEnd(b, va) == MaxOf({r[2] : r \in Regions(b, va)})
=============================================================================
