------------------------------ MODULE IconActions ---------------------------
(***************************************************************************)
(* Actions of sessions on icons and cursors: C13 (groups of icons), C14 (groups of    *)
(* cursors), C15 (files), C16 (images).                                    *)
(*                                                                         *)
(* What the digests of a session stand for is in its first event.          *)
(***************************************************************************)
EXTENDS ResourceSetActions, IconFile

VARIABLE ics    \* slot |-> images of an icon or of a cursor, in any order

ivars == <<sid, pos, sets, memo, ics>>

Blob(d) == Events[1].b[d]

Blobs == IsEvent("blobs") /\ UNCHANGED <<sets, memo, ics>>

\* --- Files (C15) -------------------------------------------------------------

\* The slot of the event holds the images of a file, unless it was refused. What an invalid file gives is unknown.
Filled(err, F, k) == IF err THEN ics
                     ELSE IF FileValid(F, k) THEN (ev.i :> FileImages(F, k)) @@ ics
                     ELSE Without(ics, ev.i)
Unknown(i) == i \notin DOMAIN ics

LoadFile ==
    /\ IsEvent("loadfile")
    /\ J("C15", Odd(ev.file, ev.k) \/ ev.err = ~FileValid(ev.file, ev.k))
    /\ J("C14", (ev.k = 2 /\ ~Odd(ev.file, 2)) => (ev.err \/ FileValid(ev.file, 2)))
    /\ ics' = Filled(ev.err, ev.file, ev.k)
    /\ UNCHANGED <<sets, memo>>

Save ==
    /\ IsEvent("save")
    /\ LET ok == Unknown(ev.i) \/ (~ev.err /\ SavedHolds(ev.file, ev.k, ics[ev.i]))
       IN  J("C15", ok) /\ J("C13", ev.k = 1 => ok) /\ J("C14", ev.k = 2 => ok)
    /\ UNCHANGED <<sets, memo, ics>>

\* --- Groups (C13, C14) --------------------------------------------------------

\* c2 is c with a group of the images im at key
GroupAdded(c, c2, k, key, im) ==
    /\ key \in DOMAIN c2
    /\ "b" \in DOMAIN Blob(c2[key])
    /\ LET b == Blob(c2[key]).b
           n == Len(im)
       IN  /\ GroupOK(b, k) /\ Len(b) = 6 + 14 * n /\ GroupCount(b) = n
           /\ LET ids == {GId(b, i) : i \in 1..n}
                  old == DOMAIN c \ {key}
                  new == DOMAIN c2 \ (DOMAIN c \cup {key})
                  at == TLCEval([id \in ids |-> CHOOSE x \in new : x[2] = ID(id)])
                  data(i) == c2[at[GId(b, i)]]
              IN  /\ Cardinality(ids) = n /\ 0 \notin ids
                  /\ Cardinality(new) = n
                  /\ \A x \in new : x[1] = ImageType(k) /\ \E i \in ids : x[2] = ID(i)
                  /\ \A x \in DOMAIN c : x[1] = ImageType(k) => \A i \in ids : x[2] # ID(i)
                  /\ \A x \in old : x \in DOMAIN c2 /\ c2[x] = c[x]
                  /\ \A i \in 1..n : /\ GSizeOK(b, i, Blob(data(i)))
                                     /\ k = 2 => Blob(data(i)).n >= 4
                  /\ LET s == TLCEval([i \in 1..n |-> GroupImage(b, k, i, Blob(data(i)))])
                     IN  SameBag(s, im) /\ Sorted(s)

\* The highest ordinal of images that the set may ever have held is too high for n more
Exhausted(k, n) ==
    \E j \in 1..(pos - 1) :
        \/ Events[j].op = "set" /\ Events[j].t = ImageType(k) /\ IsID(Events[j].r) /\ Events[j].r[2] > 65535 - n
        \/ Events[j].op = "setgroup" /\ \E x \in ToSet(Events[j].out) : x.t = ImageType(k) /\ IsID(x.r) /\ x.r[2] > 65535 - n

SetGroup ==
    /\ IsEvent("setgroup")
    /\ LET c == sets[ev.s]
           c2 == ContentOf(ev.out)
           key == <<GroupType(ev.k), ev.r, ev.l>>
           ok == IF Unknown(ev.i) THEN TRUE
                 ELSE IF ~ValidIdent(ev.r) THEN ev.err /\ c2 = c
                 ELSE IF ev.err THEN c2 = c /\ Exhausted(ev.k, Len(ics[ev.i]))
                 ELSE GroupAdded(c, c2, ev.k, key, ics[ev.i])
       IN  /\ J("C13", ev.k = 1 => ok) /\ J("C14", ev.k = 2 => ok)
           /\ J("C16", ev.k = 2 => ok)
           \* the image resources that were added are language neutral
           /\ J("C24", ok /\ \A x \in DOMAIN c2 \ (DOMAIN c \cup {key}) : x[3] = 0)
           /\ sets' = [sets EXCEPT ![ev.s] = c2]
    /\ UNCHANGED <<memo, ics>>

LangsOf(c, t, r) == {x[3] : x \in {y \in DOMAIN c : y[1] = t /\ y[2] = r}}

\* Reading a group: either its images, or <<>> if that must be an error
ReadGroup(c, k, r, l) ==
    LET ls == LangsOf(c, GroupType(k), r)
        lang == IF l < 0 THEN IF ls = {} THEN 0 ELSE MinOf(ls) ELSE l
        key == <<GroupType(k), r, lang>>
        idata(id) == LET ils == LangsOf(c, ImageType(k), ID(id)) IN c[<<ImageType(k), ID(id), MinOf(ils)>>]
    IN  IF key \notin DOMAIN c THEN <<>>
        ELSE LET b == Blob(c[key]).b IN
             IF ~GroupOK(b, k) THEN <<>>
             ELSE IF \E i \in 1..GroupCount(b) :
                        \/ LangsOf(c, ImageType(k), ID(GId(b, i))) = {}
                        \/ k = 2 /\ Blob(idata(GId(b, i))).n < 4
                  THEN <<>>
             ELSE <<[i \in 1..GroupCount(b) |-> GroupImage(b, k, i, Blob(idata(GId(b, i))))]>>

GetGroup ==
    /\ IsEvent("getgroup")
    /\ LET im == ReadGroup(sets[ev.s], ev.k, ev.r, ev.l)
           ok == ev.err = (im = <<>>)
       IN  /\ J("C13", ev.k = 1 => ok) /\ J("C14", ev.k = 2 => ok)
           /\ ics' = IF im = <<>> THEN ics ELSE (ev.i :> im[1]) @@ ics
    /\ UNCHANGED <<sets, memo>>

\* --- Images (C16) --------------------------------------------------------------

Max2(a, b) == IF a > b THEN a ELSE b
Side(src) == Max2(src.w, src.h)

\* The pixels of a picture in a square, at <<ox, oy>>. 0 is transparent.
Squared(src, ox, oy) ==
    LET s == Side(src) IN
    [i \in 1..(s * s) |->
        LET x == ((i - 1) % s) - ox
            y == ((i - 1) \div s) - oy
        IN  IF x < 0 \/ y < 0 \/ x >= src.w \/ y >= src.h THEN 0 ELSE src.pix[y * src.w + x + 1]]

Shows(k, src, pic) ==
    /\ pic.ok /\ pic.w = Side(src) /\ pic.h = Side(src)
    /\ IF k = 1
       THEN LET dx == Side(src) - src.w
                dy == Side(src) - src.h
            IN  \E ox \in {dx \div 2, (dx + 1) \div 2}, oy \in {dy \div 2, (dy + 1) \div 2} :
                   pic.pix = Squared(src, ox, oy)
       ELSE /\ pic.pix = Squared(src, 0, 0)
            /\ pic.hx = src.hx /\ pic.hy = src.hy

\* A DIB of a cursor: length l, header h
RowLen(w, bpp) == ((w * bpp + 31) \div 32) * 4
DibOK(pic) ==
    LET b == pic.dib
        s == pic.w
        bpp == U16(b, 14)
        body == 40 + s * RowLen(s, bpp)
        mask == s * RowLen(s, 1)
    IN  /\ In(b, 0, 40) /\ ~Top(b, 0) /\ U31(b, 0) = 40
        /\ U31(b, 4) = s /\ U31(b, 8) = 2 * s /\ U16(b, 12) = 1 /\ bpp \in {24, 32} /\ U31(b, 16) = 0
        /\ IF bpp = 32 THEN pic.n \in {body, body + mask} ELSE pic.n = body + mask

RefusedImage(src) == src.w = 0 \/ src.h = 0 \/ src.w > 256 \/ src.h > 256

\* A permutation that matches rows and columns of a matrix
Matching(n, M) == \E f \in [1..n -> 1..n] : (\A i, j \in 1..n : i # j => f[i] # f[j]) /\ (\A i \in 1..n : M[i][f[i]])

NewIcon ==
    /\ IsEvent("newicon")
    /\ J("C16", ev.err = \E i \in 1..Len(ev.srcs) : RefusedImage(ev.srcs[i]))
    /\ J("C16", ev.err \/
          LET n == Len(ev.srcs)
              F == ev.file
          IN  /\ SavedShape(F, ev.k) /\ FileCount(F.hdr) = n /\ Len(ev.pics) = n
              /\ \A i \in 1..n :
                    LET p == ev.pics[i]
                        e == FileImage(F, 1, i)
                    IN  /\ e.w = p.w /\ e.h = p.h
                        /\ IF ev.k = 1 THEN e.bc = 32 ELSE DibOK(p) /\ p.hx = e.pl /\ p.hy = e.bc
              /\ LET M == [i \in 1..n |-> [j \in 1..n |-> Shows(ev.k, ev.srcs[i], ev.pics[j])]]
                 IN  Matching(n, M))
    /\ ics' = Filled(ev.err, ev.file, ev.k)
    /\ UNCHANGED <<sets, memo>>

\* The picture of a source is as large as possible in a square, in its proportions, and centred.
Centred(o, n, t) == o \in {(n - t) \div 2, (n - t + 1) \div 2}
Fits(n, t, a, b) == t >= 1 /\ LET d == t * b - n * a IN -b <= d /\ d <= b     \* t is about n * a / b
Proportions(n, box, w, h) ==
    /\ Centred(box[1], n, box[3]) /\ Centred(box[2], n, box[4])
    /\ IF w >= h THEN box[3] = n /\ Fits(n, box[4], h, w) ELSE box[4] = n /\ Fits(n, box[3], w, h)

\* One square image per size
Resized ==
    /\ IsEvent("resized")
    /\ J("C16", (ev.sizes = <<>> /\ (ev.w = 0 \/ ev.h = 0)) \/
                 ev.err = (\/ ev.w = 0 \/ ev.h = 0
                           \/ Len(ev.sizes) > 30
                           \/ \E i \in 1..Len(ev.sizes) : ev.sizes[i] <= 0 \/ ev.sizes[i] > 256))
    /\ J("C16", ev.err \/
          LET F == ev.file
              n == Len(ev.sizes)
          IN  /\ SavedShape(F, 1) /\ FileCount(F.hdr) = n
              /\ SameBag([i \in 1..n |-> FileImage(F, 1, i).w], ev.sizes)
              /\ \A i \in 1..n : LET e == FileImage(F, 1, i) IN
                                 /\ e.h = e.w /\ e.bc = 32
                                 /\ LET p == ev.pics[i] IN
                                    p.ok /\ p.w = e.w /\ p.h = e.w /\ (ev.full => Proportions(e.w, p.box, ev.w, ev.h)))
    /\ ics' = Filled(ev.err, ev.file, 1)
    /\ UNCHANGED <<sets, memo>>
=============================================================================
