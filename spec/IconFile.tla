------------------------------ MODULE IconFile ------------------------------
(***************************************************************************)
(* ICO (k = 1) and CUR (k = 2) files, and groups of icons and cursors in   *)
(* resource sets.                                                          *)
(*                                                                         *)
(* A file is described by F: its length n, its first bytes hdr (directory  *)
(* included), and blocks: digests of the areas that entries designate.     *)
(* An image is a record: w, h, cc (colours), hx, hy (hot spot), pl, bc     *)
(* (planes and depth), n and d (length and digest of the data).            *)
(***************************************************************************)
EXTENDS Bytes, Ident, SequencesExt, FiniteSetsExt, TLC

Dim(x) == IF x = 0 THEN 256 ELSE x
MaxImage == 10485760

HeaderOK(b, k) == In(b, 0, 6) /\ U16(b, 0) = 0 /\ U16(b, 2) = k
FileCount(b) == U16(b, 4)
\* offset of the entry of image i
EOff(i) == 6 + 16 * (i - 1)
EntriesOK(b) == In(b, 0, 6 + 16 * FileCount(b))
\* sizes and offsets that do not fit in 31 bits are out of any file
Designates(F, i) == LET o == EOff(i) IN ~Top(F.hdr, o + 8) /\ ~Top(F.hdr, o + 12)
ESize(F, i) == U31(F.hdr, EOff(i) + 8)
EData(F, i) == U31(F.hdr, EOff(i) + 12)
InFile(F, i) == Designates(F, i) /\ EData(F, i) <= F.n /\ ESize(F, i) <= F.n - EData(F, i)
TooBig(F, i) == Top(F.hdr, EOff(i) + 8) \/ ESize(F, i) > MaxImage

Block(F, i) == F.blocks[F.refs[i]]
HasBlock(F, i) == /\ i \in DOMAIN F.refs /\ F.refs[i] > 0
                  /\ LET x == Block(F, i) IN x.o = EData(F, i) /\ x.n = ESize(F, i)

\* The format of an image: planes and depth, in the header of a DIB
PngSignature == <<137, 80, 78, 71, 13, 10, 26, 10>>
IsPng(x) == x.n >= 8 /\ SubSeq(x.h, 1, 8) = PngSignature
\* x.png: its header can be read, too. Whether the rest may be refused is open.
Suspect(x) == IsPng(x) /\ ~x.png
Known(x) == IsPng(x) \/ (x.n >= 16 /\ ~Top(x.h, 0) /\ U31(x.h, 0) \in {40, 108, 124})
Planes(x) == IF IsPng(x) THEN 1 ELSE U16(x.h, 12)
Depth(x)  == IF IsPng(x) THEN 32 ELSE U16(x.h, 14)

FileValid(F, k) ==
    /\ HeaderOK(F.hdr, k) /\ EntriesOK(F.hdr)
    /\ \A i \in 1..FileCount(F.hdr) :
          /\ InFile(F, i) /\ ~TooBig(F, i) /\ HasBlock(F, i)
          /\ k = 2 => Known(Block(F, i))

\* An entry of no byte designates nothing, wherever it is
Odd(F, k) == /\ HeaderOK(F.hdr, k) /\ EntriesOK(F.hdr)
             /\ \E i \in 1..FileCount(F.hdr) :
                   \/ ~Top(F.hdr, EOff(i) + 8) /\ ESize(F, i) = 0 /\ ~InFile(F, i)
                   \/ k = 2 /\ InFile(F, i) /\ HasBlock(F, i) /\ Suspect(Block(F, i))

FileImage(F, k, i) ==
    LET o == EOff(i)
        b == F.hdr
        x == Block(F, i)
    IN  [w |-> Dim(U8(b, o)), h |-> Dim(U8(b, o + 1)), cc |-> IF k = 1 THEN U8(b, o + 2) ELSE 0,
         hx |-> IF k = 2 THEN U16(b, o + 4) ELSE 0, hy |-> IF k = 2 THEN U16(b, o + 6) ELSE 0,
         pl |-> IF k = 1 THEN U16(b, o + 4) ELSE Planes(x), bc |-> IF k = 1 THEN U16(b, o + 6) ELSE Depth(x),
         n |-> x.n, d |-> x.d]

FileImages(F, k) == [i \in 1..FileCount(F.hdr) |-> FileImage(F, k, i)]

\* --- Comparing images in any order -----------------------------------------

Count(s, x) == Cardinality({i \in DOMAIN s : s[i] = x})
SameBag(a, b) ==
    LET p == TLCEval(a)
        q == TLCEval(b)
        A == ToSet(p)
    IN  /\ Len(p) = Len(q) /\ A = ToSet(q)
        /\ Cardinality(A) = Len(p) \/ \A x \in A : Count(p, x) = Count(q, x)

\* Best quality first: descending depth, then descending width
Better(a, b) == a.bc > b.bc \/ (a.bc = b.bc /\ a.w >= b.w)
Sorted(s) == \A i \in 1..(Len(s) - 1) : Better(s[i], s[i + 1])

\* What a CUR file holds of an image
Vis(x) == [x EXCEPT !.bc = 0, !.pl = 0, !.cc = 0]
Seen(k, s) == IF k = 1 THEN s ELSE [i \in DOMAIN s |-> Vis(s[i])]

\* s is sorted, when its depths are the ones of im
SortedAs(k, s, im) ==
    IF k = 1 THEN Sorted(s)
    ELSE LET V == TLCEval([j \in DOMAIN im |-> Vis(im[j])])
             \* the depths that image i may have
             depths == TLCEval([i \in DOMAIN s |-> LET v == Vis(s[i]) IN {im[j].bc : j \in {j \in DOMAIN im : V[j] = v}}])
         IN  \A i \in 1..(Len(s) - 1) :
                \E x \in depths[i], y \in depths[i + 1] : x > y \/ (x = y /\ s[i].w >= s[i + 1].w)

\* --- Saved files ------------------------------------------------------------

\* F holds the images im, and nothing else: the data comes after the directory, with no gap
SavedShape(F, k) ==
    /\ HeaderOK(F.hdr, k) /\ EntriesOK(F.hdr)
    /\ \A i \in 1..FileCount(F.hdr) : InFile(F, i) /\ HasBlock(F, i)
    /\ \A i \in 1..FileCount(F.hdr) :
          EData(F, i) = IF i = 1 THEN 6 + 16 * FileCount(F.hdr) ELSE EData(F, i - 1) + ESize(F, i - 1)
    /\ F.n = IF FileCount(F.hdr) = 0 THEN 6
             ELSE EData(F, FileCount(F.hdr)) + ESize(F, FileCount(F.hdr))

SavedHolds(F, k, im) ==
    /\ SavedShape(F, k)
    /\ LET s == [i \in 1..FileCount(F.hdr) |->
                    IF k = 1 THEN FileImage(F, 1, i)
                    ELSE LET x == Block(F, i) IN
                         [FileImage(F, 1, i) EXCEPT !.hx = U16(F.hdr, EOff(i) + 4), !.hy = U16(F.hdr, EOff(i) + 6)]]
           t == TLCEval(s)
       IN  SameBag(Seen(k, t), Seen(k, im)) /\ SortedAs(k, t, im)

\* --- Groups in resource sets -------------------------------------------------

GroupType(k) == IF k = 1 THEN RTGroupIcon ELSE RTGroupCursor
ImageType(k) == IF k = 1 THEN RTIcon ELSE RTCursor

GroupCount(b) == U16(b, 4)
GOff(i) == 6 + 14 * (i - 1)
GroupOK(b, k) == HeaderOK(b, k) /\ In(b, 0, 6 + 14 * GroupCount(b))
GId(b, i) == U16(b, GOff(i) + 12)

\* x: what is known of a resource: its length n, its digest d, its first bytes h, and the digest rd of what follows
GroupImage(b, k, i, x) ==
    LET o == GOff(i) IN
    IF k = 1
    THEN [w |-> Dim(U8(b, o)), h |-> Dim(U8(b, o + 1)), cc |-> U8(b, o + 2), hx |-> 0, hy |-> 0,
          pl |-> U16(b, o + 4), bc |-> U16(b, o + 6), n |-> x.n, d |-> x.d]
    ELSE [w |-> U16(b, o), h |-> U16(b, o + 2), cc |-> 0, hx |-> U16(x.h, 0), hy |-> U16(x.h, 2),
          pl |-> U16(b, o + 4), bc |-> U16(b, o + 6), n |-> x.n - 4, d |-> x.rd]

\* the size the group announces is the one of the resource
GSizeOK(b, i, x) == ~Top(b, GOff(i) + 8) /\ U31(b, GOff(i) + 8) = x.n
=============================================================================
