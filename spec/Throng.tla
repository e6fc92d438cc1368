------------------------------- MODULE Throng -------------------------------
(***************************************************************************)
(* Resource sets around the limits of the 16-bit counts of the formats:    *)
(* tables with 65,535 entries or more, names of 65,535 units or more,      *)
(* objects with more relocations than the section header can count.        *)
(* Resource number i (from 0) of a set of n has a key and a byte of data   *)
(* that follow from its shape.                                             *)
(***************************************************************************)
EXTENDS Coff

Long(shape) == shape \in {"long", "longpairs"}
HowMany(shape, n) == IF Long(shape) THEN 1 ELSE n

\* Tables count names and ordinals with 16 bits each, and names their units
TooMuch(shape, n) == shape \in {"langs", "names", "long", "longpairs"} /\ n > 65535

KeyOf(shape, n, i) == CASE shape = "langs" -> <<1, i>>
                       [] shape = "two" -> IF i < n \div 2 THEN <<1, i>> ELSE <<2, i - n \div 2>>
                       [] shape = "ids" -> <<i + 1, 0>>
                       [] shape = "names" -> <<i, 0>>
                       [] OTHER -> <<n, 0>>

\* The members of the throng, in canonical order
Members(E) ==
    LET m == HowMany(E.shape, E.n) IN
    /\ Len(E.rs) = m
    /\ \A i \in 1..m : LET k == KeyOf(E.shape, E.n, i - 1) IN
          E.rs[i] = k[1] /\ E.ls[i] = k[2] /\ E.ns[i] = 1 /\ E.bs[i] = (i - 1) % 251

Apiece(s, size) == Cardinality({s[i] : i \in 1..Len(s)}) = Len(s) /\ \A i \in 1..Len(s) : s[i] + 1 <= size

DirectoryOf(E) == /\ Members(E)
                  /\ Apiece(E.es, E.secsize - 15) /\ Apiece(E.os, E.secsize)
                  /\ \A i \in 1..Len(E.es) : E.es[i] % 4 = 0 /\ E.os[i] % 8 = 0

Overflows(h) == U8(h, 59) = 65
PlainHead(h) == [h EXCEPT ![60] = 64]

ObjectOf(E, arch) ==
    LET h == E.head
        m == HowMany(E.shape, E.n)
        relPos == RawPtr(h) + RawSize(h)
        \* one more relocation, before the others, tells how many there are
        all == IF Overflows(h) THEN m + 1 ELSE m
        strPos == 18 * NumSym(h)
    IN  /\ HeadersValid(PlainHead(h), arch)
        /\ Overflows(h) <=> m > 65535
        /\ IF Overflows(h)
           THEN NumReloc(h) = 65535 /\ Len(E.first) = 10 /\ ~Top(E.first, 0) /\ U31(E.first, 0) = all
           ELSE NumReloc(h) = m
        /\ RawPtr(h) = 60 /\ PtrReloc(h) = relPos /\ PtrSym(h) = relPos + 10 * all
        /\ Len(E.rel) = m
        /\ {E.rel[i] - SecVA(h) : i \in 1..m} = {E.es[i] : i \in 1..Len(E.es)}
        /\ Len(E.kinds) = 1
        /\ U16(E.kinds[1], 4) = RelocType(arch)
        /\ ~Top(E.kinds[1], 0) /\ LocalSymbol(h, E.end, 0, U31(E.kinds[1], 0))
        /\ In(E.end, strPos, 4) /\ ~Top(E.end, strPos)
        /\ strPos + U31(E.end, strPos) = Len(E.end)
        /\ U31(E.end, strPos) >= 4
        /\ PtrSym(h) + Len(E.end) = E.size
=============================================================================
