------------------------------ MODULE PEImage ------------------------------
(***************************************************************************)
(* PE images, as structures: what must hold in any of them, and what must  *)
(* hold between an image and the same one with other resources.            *)
(*                                                                         *)
(* P is a record:                                                          *)
(*   size, hdrEnd, fa, sa, soi, nsec: file size, end of the section table, *)
(*         alignments in the file and in memory, size of image, sections   *)
(*   soh, sid: size of headers, size of initialized data                   *)
(*   stub, hdr: contents of the stub, and of the header fields that have   *)
(*         nothing to do with sizes, layout, resources and signature       *)
(*   secs: sections [va, vs, ptr, rs, u, id, d] - u: uninitialized, id:    *)
(*         its name, characteristics..., d: its content                    *)
(*   dirs: data directories [va, size]                                     *)
(*   ovl:  [start, d] what follows the last section                        *)
(*   cert, nocert, certlast: the certificates; what follows the last       *)
(*         section without them; whether they end the file                 *)
(*   sym, symptr, symn: the symbol table                                   *)
(*   certok, symok: there is one, inside the file                          *)
(* Contents are opaque: digests of recorded files, sequences in models.    *)
(***************************************************************************)
EXTENDS Ident, Bytes, Functions

DirRes == 3    \* positions of the resource, certificate and relocation directories
DirCert == 5
DirReloc == 6

HasData(s) == s.rs > 0 /\ ~s.u
InFile(P) == {i \in 1..Len(P.secs) : HasData(P.secs[i])}
Secs(P) == 1..Len(P.secs)

VEnd(P, i) == RoundUp(P.secs[i].va + P.secs[i].vs, P.sa)
DataEnd(P) == MaxOf({0} \cup {P.secs[i].ptr + P.secs[i].rs : i \in InFile(P)})
DataStart(P) == MinOf({P.secs[i].ptr : i \in InFile(P)})

\* The section that holds resources, if there is one
RsrcIdx(P) == {i \in Secs(P) : P.dirs[DirRes].va # 0 /\ P.secs[i].va = P.dirs[DirRes].va}
RelocIdx(P) == {i \in Secs(P) : P.dirs[DirReloc].va # 0 /\ P.secs[i].va = P.dirs[DirReloc].va}
HasResources(P) == P.dirs[DirRes].va # 0 \/ P.dirs[DirRes].size # 0
Signed(P) == Len(P.dirs) >= DirCert /\ P.dirs[DirCert].va # 0

-----------------------------------------------------------------------------
(* Consistent layout *)

\* clipped values stand for anything above
Small(x) == x < 1073741824

Numbers(P) == /\ \A i \in Secs(P) : LET s == P.secs[i] IN Small(s.va) /\ Small(s.vs) /\ Small(s.ptr) /\ Small(s.rs)
              /\ \A i \in 1..Len(P.dirs) : Small(P.dirs[i].va) /\ Small(P.dirs[i].size)
              /\ P.fa > 0 /\ P.sa > 0 /\ P.fa <= 65536 /\ P.sa <= 16777216

MemoryLayout(P) ==
    /\ \A i \in Secs(P) : P.secs[i].va % P.sa = 0 /\ P.secs[i].va >= P.hdrEnd
    /\ \A i, j \in Secs(P) : i < j => Apart(P.secs[i].va, VEnd(P, i), P.secs[j].va, VEnd(P, j))
    /\ P.soi = MaxOf({0} \cup {VEnd(P, i) : i \in Secs(P)})

\* ragged: sections whose size in the file may be anything (loaders accept it, linkers do not make it)
FileLayout(P, ragged) ==
    /\ \A i \in InFile(P) : LET s == P.secs[i] IN
          /\ s.ptr % P.fa = 0 /\ s.ptr >= P.hdrEnd /\ s.ptr + s.rs <= P.size
          /\ i \in ragged \/ s.rs % P.fa = 0
    /\ \A i, j \in InFile(P) : i < j =>
          Apart(P.secs[i].ptr, P.secs[i].ptr + P.secs[i].rs, P.secs[j].ptr, P.secs[j].ptr + P.secs[j].rs)

RsrcEntry(P) ==
    /\ Cardinality(RsrcIdx(P)) = 1
    /\ \A i \in RsrcIdx(P) : /\ HasData(P.secs[i])
                             /\ P.dirs[DirRes].size <= P.secs[i].vs
                             /\ P.dirs[DirRes].size <= P.secs[i].rs

\* The headers fit in their declared size, before anything else
HeadersFit(P) ==
    /\ P.hdrEnd <= P.soh /\ P.soh <= P.size
    /\ InFile(P) # {} => P.soh <= DataStart(P)
    /\ \A i \in Secs(P) : P.soh <= P.secs[i].va

ConsistentBut(P, ragged) ==
    Numbers(P) /\ Len(P.secs) = P.nsec /\ HeadersFit(P) /\ MemoryLayout(P) /\ FileLayout(P, ragged)
Consistent(P) == ConsistentBut(P, {})

Ragged(P) == {i \in InFile(P) \ RsrcIdx(P) : P.secs[i].rs % P.fa # 0}

\* A source image the library must be able to patch
Source(P) == /\ ConsistentBut(P, Ragged(P))
             /\ Cardinality(RsrcIdx(P)) <= 1
             /\ HasResources(P) => RsrcIdx(P) # {}
             /\ \A i \in Secs(P) : P.secs[i].vs > 0
             /\ InFile(P) # {}

\* There is room for the header of one more section
RoomFor(P, n) == /\ InFile(P) # {} /\ DataStart(P) - P.hdrEnd >= n
                 /\ \A i \in Secs(P) : P.secs[i].va - P.hdrEnd >= n
HasRoom(P) == RoomFor(P, 40)

-----------------------------------------------------------------------------
(* From P to Q, P with other resources *)

\* Section i is a base relocation section that directly follows the resource section r, at the end of the image
FollowsAtEnd(P, r, i) == /\ i \in RelocIdx(P)
                         /\ P.secs[i].va = VEnd(P, r)
                         /\ \A j \in Secs(P) : VEnd(P, j) <= VEnd(P, i)

\* Resources can be replaced where they are
KeepsPlace(P) == \E r \in RsrcIdx(P) : \/ \A j \in Secs(P) : VEnd(P, j) <= VEnd(P, r)
                                       \/ \E i \in Secs(P) : FollowsAtEnd(P, r, i)

\* Sections keep their place in memory
AddressesKept(P, Q) ==
    /\ Len(Q.secs) \in {Len(P.secs), Len(P.secs) + 1}
    /\ \A i \in Secs(P) \ RsrcIdx(P) :
          \/ Q.secs[i].va = P.secs[i].va
          \/ \E r \in RsrcIdx(P) : FollowsAtEnd(P, r, i)

\* Sections keep everything else
SectionsKept(P, Q) ==
    /\ Len(Q.secs) >= Len(P.secs)
    /\ \A i \in Secs(P) \ RsrcIdx(P) :
          /\ Q.secs[i].d = P.secs[i].d
          /\ Q.secs[i].rs = P.secs[i].rs
          /\ Q.secs[i].vs = P.secs[i].vs
          /\ Q.secs[i].id = P.secs[i].id

\* Sizes declared in the headers follow
Raw(P) == FoldFunction(LAMBDA s, n : s.rs + n, 0, P.secs)
SizesFollow(P, Q) ==
    /\ Q.soh = IF Q.hdrEnd <= P.soh THEN P.soh ELSE RoundUp(Q.hdrEnd, P.fa)
    /\ Q.sid - P.sid = Raw(Q) - Raw(P)

HeadersKept(P, Q) == Q.stub = P.stub /\ Q.hdr = P.hdr /\ Len(Q.dirs) = Len(P.dirs)

\* The section and the position in it that an address designates
Holder(P, a) == {i \in Secs(P) : P.secs[i].va <= a /\ a < VEnd(P, i)}

DirsKept(P, Q) ==
    \A n \in 1..Len(P.dirs) \ {DirRes, DirCert} :
       /\ Q.dirs[n].size = P.dirs[n].size
       /\ IF P.dirs[n].va = 0 \/ Holder(P, P.dirs[n].va) = {}
          THEN Q.dirs[n].va = P.dirs[n].va
          ELSE \A i \in Holder(P, P.dirs[n].va) :
                  i \notin RsrcIdx(P) => Q.dirs[n].va - Q.secs[i].va = P.dirs[n].va - P.secs[i].va

\* What follows the last section, with or without the certificates
OverlayKept(P, Q, strip) ==
    /\ Q.ovl.start = DataEnd(Q)
    /\ Q.ovl.d = IF strip /\ Signed(P) /\ P.certlast THEN P.nocert ELSE P.ovl.d

\* if the symbol table is not among the bytes that went away with the certificates
SymbolsKept(P, Q) == Q.symn = P.symn /\ (P.symok => Q.symok /\ Q.sym = P.sym)

Intact(P, Q, strip) == /\ HeadersKept(P, Q) /\ SectionsKept(P, Q) /\ DirsKept(P, Q)
                       /\ OverlayKept(P, Q, strip) /\ SymbolsKept(P, Q)

Stripped(P, Q) == /\ Q.dirs[DirCert].va = 0 /\ Q.dirs[DirCert].size = 0
                  /\ P.certlast => Q.ovl.d = P.nocert
CertKept(P, Q) == /\ Q.dirs[DirCert].size = P.dirs[DirCert].size
                  /\ P.certok => Q.certok /\ Q.cert = P.cert
=============================================================================
