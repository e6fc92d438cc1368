----------------------------- MODULE VersionTree -----------------------------
(***************************************************************************)
(* The binary form of version information: a tree of VS_VERSIONINFO nodes. *)
(* Every node has a length, the length of its value, a kind, a key in      *)
(* UTF-16, then its value and its children, aligned on 32 bits.            *)
(***************************************************************************)
EXTENDS Bytes, VersionInfo, SequencesExt

CodePage == 1200

Align4(x) == ((x + 3) \div 4) * 4

NLen(b, o) == U16(b, o)
NValue(b, o) == U16(b, o + 2)
NType(b, o) == U16(b, o + 4)

Text(b, o, n) == [i \in 1..n |-> U16(b, o + 2 * (i - 1))]

\* Number of units of the NUL-terminated string at o, that must end before e. -1: it does not.
Units(b, o, e) == LET z == {i \in 0..((e - o) \div 2 - 1) : U16(b, o + 2 * i) = 0}
                  IN  IF z = {} THEN -1 ELSE LowestOf(z)

BadNode == [ok |-> FALSE, key |-> <<>>, val |-> 0, end |-> 0, type |-> 0, vlen |-> 0]

\* The node at o, whose parent ends at e: its key, where its value is, where it ends
Node(b, o, e) ==
    IF o + 6 > e THEN BadNode
    ELSE IF NLen(b, o) < 8 \/ NLen(b, o) > e - o THEN BadNode
    ELSE LET end == o + NLen(b, o)
             n == Units(b, o + 6, end)
         IN  IF n < 1 THEN BadNode
             ELSE [ok |-> TRUE, key |-> Text(b, o + 6, n), val |-> Align4(o + 6 + 2 * (n + 1)), end |-> end,
                   type |-> NType(b, o), vlen |-> NValue(b, o)]

\* The nodes from o to e. One that is not valid is the last one.
RECURSIVE Nodes(_, _, _)
Nodes(b, o, e) ==
    LET p == Align4(o) IN
    IF p >= e THEN <<>>
    ELSE LET n == Node(b, p, e) IN IF n.ok THEN <<n>> \o Nodes(b, n.end, e) ELSE <<n>>

Root(b) == Node(b, 0, Len(b))
\* Children of node n, of value length in bytes v
Children(b, n, v) == Nodes(b, n.val + v, n.end)
Known(ns) == SelectSeq(ns, LAMBDA n : n.ok)

VsVersionInfo == <<86, 83, 95, 86, 69, 82, 83, 73, 79, 78, 95, 73, 78, 70, 79>>
StringFileInfo == <<83, 116, 114, 105, 110, 103, 70, 105, 108, 101, 73, 110, 102, 111>>
VarFileInfo == <<86, 97, 114, 70, 105, 108, 101, 73, 110, 102, 111>>
Translation == <<84, 114, 97, 110, 115, 108, 97, 116, 105, 111, 110>>

Hex(c) == IF c >= 48 /\ c <= 57 THEN c - 48 ELSE IF c >= 65 /\ c <= 70 THEN c - 55 ELSE IF c >= 97 /\ c <= 102 THEN c - 87 ELSE -1
HexKey(k) == Len(k) = 8 /\ \A i \in 1..8 : Hex(k[i]) >= 0
Hex4(k, i) == 4096 * Hex(k[i]) + 256 * Hex(k[i + 1]) + 16 * Hex(k[i + 2]) + Hex(k[i + 3])

\* --- What a tree says ----------------------------------------------------------

\* The value of a string node: up to a NUL, or to its length
StringValue(b, n) ==
    LET t == Text(b, n.val, n.vlen)
        z == {i \in 1..n.vlen : t[i] = 0}
    IN  IF z = {} THEN t ELSE SubSeq(t, 1, LowestOf(z) - 1)

\* Sequence of pairs to function
PairsFun(ps) == LET S == ToSet(ps) IN [k \in {p[1] : p \in S} |-> (CHOOSE p \in S : p[1] = k)[2]]

Table(b, ks) == PairsFun([i \in 1..Len(ks) |-> <<ks[i].key, StringValue(b, ks[i])>>])

\* Pairs of a language and the strings of its table
LangPairs(b) ==
    LET info == SelectSeq(Known(Children(b, Root(b), NValue(b, 0))), LAMBDA n : n.key = StringFileInfo)
        tables == FoldLeft(LAMBDA s, n : s \o Known(Children(b, n, 0)), <<>>, info)
    IN  [i \in 1..Len(tables) |-> <<Hex4(tables[i].key, 1), Table(b, Known(Children(b, tables[i], 0)))>>]

TreeLangs(b) == LET ps == LangPairs(b) IN {ps[i][1] : i \in 1..Len(ps)}
TreeTable(b) == PairsFun(SelectSeq(LangPairs(b), LAMBDA p : DOMAIN p[2] # {}))

\* The fixed part. Versions are stored as two 32-bit numbers, the high half of each one being the first number.
FixedAt(b) == Root(b).val
Version(b, o) == <<U16(b, o + 2), U16(b, o), U16(b, o + 6), U16(b, o + 4)>>
Bit(x, n) == (x \div n) % 2 = 1
Flags(b, o) == LET f == U16(b, o + 28) IN <<Bit(f, 1), Bit(f, 2), Bit(f, 4), Bit(f, 8), Bit(f, 32)>>
Type(b, o) == IF U16(b, o + 38) # 0 THEN 2 ELSE IF U16(b, o + 36) = 1 THEN 0 ELSE IF U16(b, o + 36) = 2 THEN 1 ELSE 2
\* units of 100 ns since 1601, in four numbers of 16 bits, highest first
Date(b, o) == <<U16(b, o + 46), U16(b, o + 44), U16(b, o + 50), U16(b, o + 48)>>

HasFixed(b) == NValue(b, 0) >= 52
ZeroVersion == <<0, 0, 0, 0>>

TreeInfo(b) ==
    LET o == FixedAt(b) IN
    [fv |-> IF HasFixed(b) THEN Version(b, o + 8) ELSE ZeroVersion,
     pv |-> IF HasFixed(b) THEN Version(b, o + 16) ELSE ZeroVersion,
     fl |-> IF HasFixed(b) THEN Flags(b, o) ELSE <<FALSE, FALSE, FALSE, FALSE, FALSE>>,
     ty |-> IF HasFixed(b) THEN Type(b, o) ELSE 0,
     tk |-> IF HasFixed(b) THEN Date(b, o) ELSE <<0, 0, 0, 0>>,
     lt |-> TreeTable(b)]

\* --- Well-formed trees -----------------------------------------------------------

\* Node n ends where the last of its children ks does, or after its padding
EndsWith(n, v, ks) == LET e == IF ks = <<>> THEN n.val + v ELSE Last(ks).end
                      IN  n.end \in e..Align4(e)

StringOK(b, n) ==
    /\ n.ok /\ n.type = 1
    /\ n.vlen >= 1 /\ n.val + 2 * n.vlen = n.end
    /\ Len(StringValue(b, n)) = n.vlen - 1

TableOK(b, n) ==
    /\ n.ok /\ n.type = 1 /\ n.vlen = 0
    /\ HexKey(n.key) /\ Hex4(n.key, 5) = CodePage
    /\ LET ks == Children(b, n, 0) IN
       /\ \A i \in 1..Len(ks) : StringOK(b, ks[i])
       /\ EndsWith(n, 0, ks)
       /\ Cardinality({ks[i].key : i \in 1..Len(ks)}) = Len(ks)

StringsOK(b, n, ts) ==
    /\ n.ok /\ n.type = 1 /\ n.vlen = 0 /\ n.key = StringFileInfo
    /\ \A i \in 1..Len(ts) : TableOK(b, ts[i])
    /\ EndsWith(n, 0, ts)
    /\ Cardinality({Hex4(ts[i].key, 1) : i \in 1..Len(ts)}) = Len(ts)

\* The languages of the translation list of node t
Listed(b, t) == {<<U16(b, t.val + 4 * i), U16(b, t.val + 4 * i + 2)>> : i \in 0..(t.vlen \div 4 - 1)}

VarOK(b, n, langs) ==
    /\ n.ok /\ n.type = 1 /\ n.vlen = 0 /\ n.key = VarFileInfo
    /\ LET ks == Children(b, n, 0) IN
       /\ Len(ks) = 1 /\ EndsWith(n, 0, ks)
       /\ LET t == ks[1] IN
          /\ t.ok /\ t.type = 0 /\ t.key = Translation
          /\ t.vlen = 4 * Cardinality(langs)
          /\ t.val + t.vlen = t.end
          /\ Listed(b, t) = {<<l, CodePage>> : l \in langs}

WellFormed(b) ==
    LET root == Root(b) IN
    /\ root.ok /\ root.end = Len(b)
    /\ root.key = VsVersionInfo /\ root.type = 0 /\ root.vlen = 52
    /\ In(b, root.val, 52)
    /\ U16(b, root.val) = 1213 /\ U16(b, root.val + 2) = 65263
    /\ LET ks == Children(b, root, 52) IN
       /\ Len(ks) = 2 /\ EndsWith(root, 52, ks)
       /\ LET s == IF ks[1].key = StringFileInfo THEN 1 ELSE 2
              ts == Children(b, ks[s], 0)
          IN  /\ StringsOK(b, ks[s], ts)
              /\ VarOK(b, ks[3 - s], {Hex4(ts[i].key, 1) : i \in 1..Len(ts)})
=============================================================================
