------------------------------ MODULE PEPatch ------------------------------
(***************************************************************************)
(* How an executable is patched (exe.go), on small images: sections are    *)
(* analysed, a new section may be required, headers are updated, and the   *)
(* file is written from pieces of the source.  A file is a sequence of     *)
(* tokens that tell where its bytes come from, so that what a header       *)
(* designates can be compared before and after.                            *)
(*                                                                         *)
(* Units: the file alignment is 2, the section alignment 4, a section      *)
(* header takes 1.                                                         *)
(***************************************************************************)
EXTENDS PEImage, SequencesExt, TLC, Json

CONSTANTS
    MaxSecs,     \* sections of source images
    NewSizes,    \* sizes of resources, in source images and when patching
    MaxPatches,
    VSizes,      \* added to the raw sizes of sections to get their virtual sizes
    HDRMEM,      \* FALSE: what the code did before commit b05c596 (only looked at the file)
    REALIGN      \* FALSE: what the code did before commit a67bfb9 (compared unrounded sizes)

FA == 2
SA == 4

VARIABLES img, done, last

vars == <<img, done, last>>

-----------------------------------------------------------------------------
(* Source images *)

Kinds == {"d", "u", "R", "B"}   \* data, uninitialized, resources, base relocations
KindSeqs == {s \in UNION {[1..n -> Kinds] : n \in 1..MaxSecs} :
                /\ Cardinality({i \in DOMAIN s : s[i] = "R"}) <= 1
                /\ Cardinality({i \in DOMAIN s : s[i] = "B"}) <= 1
                /\ \E i \in DOMAIN s : s[i] # "u"}

\* c.cut: the last section of the file is ragged
RawOf(k, c) == CASE k = "d" -> 4 [] k = "u" -> 0 [] k = "R" -> RoundUp(c.n, FA) + c.rx [] k = "B" -> 2
VirtOf(k, n, dv) == CASE k = "d" -> 4 + dv [] k = "u" -> 3 [] k = "R" -> n [] k = "B" -> 2

Blank(n) == [i \in 1..n |-> <<"0">>]

\* c: [kinds, n (size of resources), rx (spare room in their section), dv, room, rev (order in the file), ovl, cert, sym]
Build(c) ==
    LET ks == c.kinds
        N == Len(ks)
        hdrEnd == 2 + N
        headers == RoundUp(hdrEnd + c.room, FA)
        va0 == RoundUp(headers, SA)
        inFile == {i \in 1..N : RawOf(ks[i], c) > 0}
        final == IF c.rev THEN MinOf(inFile) ELSE MaxOf(inFile)
        raw(i) == RawOf(ks[i], c) - (IF i = final /\ ks[i] = "d" THEN c.cut ELSE 0)
        va == FoldLeft(LAMBDA acc, i : Append(acc, acc[Len(acc)] + RoundUp(VirtOf(ks[i], c.n, c.dv), SA)), <<va0>>, [i \in 1..N |-> i])
        order == IF c.rev THEN [i \in 1..N |-> N + 1 - i] ELSE [i \in 1..N |-> i]
        ptrs == FoldLeft(LAMBDA acc, i : [at |-> acc.at + raw(i), p |-> (i :> acc.at) @@ acc.p],
                         [at |-> headers + c.gap, p |-> <<>>], order)
        end == ptrs.at
        tok(i) == [j \in 1..raw(i) |-> <<"s", i, j>>]
        all == FoldLeft(LAMBDA acc, i : acc \o tok(i), Blank(headers + c.gap), order)
        ovl == [j \in 1..c.ovl |-> <<"ovl", j>>]
        cert == [j \in 1..c.cert |-> <<"cert", j>>]
        rsrc == {i \in 1..N : ks[i] = "R"}
        reloc == {i \in 1..N : ks[i] = "B"}
        zero == [va |-> 0, size |-> 0]
        dir(S, size) == IF S = {} THEN zero ELSE LET i == CHOOSE i \in S : TRUE IN [va |-> va[i], size |-> size]
        \* another directory, in the last section that holds data
        other == {i \in 1..N : ks[i] = "d"}
        dir1 == IF other = {} THEN zero ELSE [va |-> va[MaxOf(other)] + 1, size |-> 1]
    IN  [hdrEnd |-> hdrEnd, soh |-> headers,
         sid |-> FoldLeft(LAMBDA acc, i : acc + raw(i), 0, order),
         secs |-> [i \in 1..N |-> [va |-> va[i], vs |-> VirtOf(ks[i], c.n, c.dv),
                                   ptr |-> IF raw(i) = 0 THEN 0 ELSE ptrs.p[i],
                                   rs |-> raw(i), u |-> ks[i] = "u", id |-> ks[i]]],
         dirs |-> <<dir1, zero, dir(rsrc, c.n), zero,
                    IF c.cert = 0 THEN zero ELSE [va |-> end + c.ovl, size |-> c.cert],
                    dir(reloc, 1)>>,
         soi |-> va[N + 1],
         sym |-> CASE c.sym = "none" -> [ptr |-> 0, n |-> 0]
                   [] c.sym = "ovl"  -> [ptr |-> end, n |-> 1]
                   [] c.sym = "sec"  -> IF other = {} THEN [ptr |-> 0, n |-> 0] ELSE [ptr |-> ptrs.p[MaxOf(other)], n |-> 1],
         file |-> all \o ovl \o cert]

Layouts == [kinds : KindSeqs, n : NewSizes, rx : {0, 4}, dv : VSizes, room : {0, 1, 2}, gap : {0, 2}, rev : BOOLEAN, cut : {0, 1}, ovl : {0, 3}, cert : {0, 2}, sym : {"none", "ovl", "sec"}]
LastKind(c) == LET S == {i \in DOMAIN c.kinds : c.kinds[i] # "u"} IN c.kinds[MaxOf(S)]
Sensible(c) == /\ c.gap > 0 => c.room = 0
               /\ c.sym = "ovl" => c.ovl > 0
               /\ c.cut > 0 => ~c.rev /\ c.sym = "none" /\ c.gap = 0 /\ LastKind(c) = "d"
               /\ (\A i \in DOMAIN c.kinds : c.kinds[i] # "R") => c.n = MinOf(NewSizes) /\ c.rx = 0
               /\ (\A i \in DOMAIN c.kinds : c.kinds[i] # "d") => c.dv = MinOf(VSizes)

-----------------------------------------------------------------------------
(* The projection that PEImage judges *)

Project(I) ==
    LET size == Len(I.file)
        part(o, n) == IF In(I.file, o, n) THEN Sub(I.file, o, n) ELSE <<"outside">>
        end == MaxOf({0} \cup {I.secs[i].ptr + I.secs[i].rs : i \in {j \in 1..Len(I.secs) : HasData(I.secs[j])}})
        cert == I.dirs[DirCert]
    IN  [size |-> size, hdrEnd |-> I.hdrEnd, fa |-> FA, sa |-> SA, soi |-> I.soi, soh |-> I.soh, sid |-> I.sid, nsec |-> Len(I.secs),
         stub |-> "stub", hdr |-> "hdr",
         secs |-> [i \in 1..Len(I.secs) |-> [va |-> I.secs[i].va, vs |-> I.secs[i].vs, ptr |-> I.secs[i].ptr, rs |-> I.secs[i].rs,
                                            u |-> I.secs[i].u, id |-> I.secs[i].id,
                                            d |-> IF HasData(I.secs[i]) THEN part(I.secs[i].ptr, I.secs[i].rs) ELSE <<>>]],
         dirs |-> I.dirs,
         ovl |-> [start |-> end, d |-> part(end, size - end)],
         cert |-> part(cert.va, cert.size),
         certok |-> cert.va # 0 /\ In(I.file, cert.va, cert.size),
         certlast |-> cert.va + cert.size = size,
         nocert |-> IF cert.va = 0 THEN <<"outside">> ELSE part(end, cert.va - end),
         symptr |-> I.sym.ptr, symn |-> I.sym.n,
         symok |-> I.sym.n > 0 /\ In(I.file, I.sym.ptr, I.sym.n),
         sym |-> part(I.sym.ptr, I.sym.n)]

-----------------------------------------------------------------------------
(* The algorithm *)

RV(x) == RoundUp(x, SA)
RR(x) == RoundUp(x, FA)

Failed == [err |-> TRUE]

\* Patches I with n units of resources; strip: remove the signature. gen tags the new tokens.
Patch(I, n, strip, gen) ==
    LET N == Len(I.secs)
        fileSize == Len(I.file)
        cert == I.dirs[DirCert]
        dirs0 == IF strip THEN [I.dirs EXCEPT ![DirCert] = [va |-> 0, size |-> 0]] ELSE I.dirs
        sigSize == IF strip /\ cert.va # 0 /\ cert.va + cert.size = fileSize THEN cert.size ELSE 0
        rsrcs == {i \in 1..N : I.secs[i].va = I.dirs[DirRes].va}
        relocs == {i \in 1..N : I.secs[i].va = I.dirs[DirReloc].va}
        has == {i \in 1..N : ~I.secs[i].u /\ I.secs[i].rs # 0}
        virtEnd == RV(MaxOf({I.secs[i].va + I.secs[i].vs : i \in 1..N}))
        dataOffset == MinOf({I.secs[i].ptr : i \in has})
        dataEnd == MaxOf({I.secs[i].ptr + I.secs[i].rs : i \in has})
        r == CHOOSE i \in rsrcs : TRUE
        endOfRsrc == RV(I.secs[r].va + I.secs[r].vs)
        atEnd == endOfRsrc >= virtEnd
        beforeReloc == \E b \in relocs : I.secs[b].va = endOfRsrc /\ RV(I.secs[b].va + I.secs[b].vs) >= virtEnd
        fits == /\ I.secs[r].rs >= n
                /\ IF REALIGN THEN RV(I.secs[r].rs) = RV(I.secs[r].vs) ELSE TRUE
        keep == rsrcs # {} /\ (atEnd \/ beforeReloc \/ fits)
        data == [j \in 1..n |-> <<"new", gen, j>>]
        \* resources in the middle are padded to the size they had
        data2 == IF keep /\ ~atEnd /\ ~beforeReloc THEN data \o Blank(I.secs[r].rs - n) ELSE data
        len == Len(data2)
        noRoom == /\ ~keep
                  /\ \/ dataOffset < I.hdrEnd + 1
                     \/ HDRMEM /\ \E i \in 1..N : I.secs[i].va < I.hdrEnd + 1
        rsrcEnd == IF keep THEN RR(I.secs[r].ptr + I.secs[r].rs) ELSE dataEnd
        \* new headers
        virtDelta == IF keep THEN RV(len) - RV(I.secs[r].vs) ELSE 0
        rawDelta == IF keep THEN RR(len) - RR(I.secs[r].rs) ELSE 0
        moved == [i \in 1..N |->
                    [I.secs[i] EXCEPT !.va = IF keep /\ @ > I.secs[r].va THEN @ + virtDelta ELSE @,
                                      !.ptr = IF keep /\ @ > I.secs[r].ptr THEN @ + rawDelta ELSE @,
                                      !.vs = IF keep /\ i = r THEN len ELSE @,
                                      !.rs = IF keep /\ i = r THEN RR(len) ELSE @]]
        secs2 == IF keep THEN moved
                 ELSE Append(moved, [va |-> virtEnd, vs |-> len, ptr |-> RR(dataEnd), rs |-> RR(len), u |-> FALSE, id |-> "R"])
        q == IF keep THEN r ELSE N + 1
        new == secs2[q]
        rawShift == new.ptr + new.rs - rsrcEnd
        dirs1 == [d \in 1..Len(dirs0) |->
                    IF d = DirRes THEN [va |-> new.va, size |-> len]
                    ELSE IF d = DirCert
                    THEN IF dirs0[d].va >= rsrcEnd THEN [dirs0[d] EXCEPT !.va = @ + rawShift] ELSE dirs0[d]
                    ELSE IF dirs0[d].va > new.va THEN [dirs0[d] EXCEPT !.va = @ + virtDelta] ELSE dirs0[d]]
        hdrEnd2 == I.hdrEnd + (IF keep THEN 0 ELSE 1)
        lastSec == IF keep THEN CHOOSE i \in 1..Len(secs2) : \A j \in 1..Len(secs2) : secs2[j].va <= secs2[i].va ELSE q
        \* writing
        end == MinOf({dataEnd, new.ptr})
        out == Blank(hdrEnd2) \o Blank(MaxOf({0, dataOffset - hdrEnd2}))
               \o Sub(I.file, dataOffset, end - dataOffset)
               \o Blank(MaxOf({0, new.ptr - end}))
               \o data2 \o Blank(new.rs - len)
               \o Sub(I.file, rsrcEnd, fileSize - sigSize - rsrcEnd)
    IN  IF noRoom THEN Failed
        ELSE [err |-> FALSE,
              img |-> [hdrEnd |-> hdrEnd2, secs |-> secs2, dirs |-> dirs1,
                       soh |-> IF ~keep /\ HDRMEM /\ I.soh < hdrEnd2 THEN RR(hdrEnd2) ELSE I.soh,
                       sid |-> I.sid + new.rs - (IF keep THEN I.secs[r].rs ELSE 0),
                       soi |-> secs2[lastSec].va + RV(secs2[lastSec].vs),
                       sym |-> IF I.sym.ptr >= rsrcEnd THEN [I.sym EXCEPT !.ptr = @ + rawShift] ELSE I.sym,
                       file |-> out]]

-----------------------------------------------------------------------------

Init == /\ \E c \in Layouts : Sensible(c) /\ img = Build(c)
        /\ done = 0
        /\ last = [err |-> FALSE, n |-> 0, strip |-> FALSE]

DoPatch(n, strip) ==
    /\ done < MaxPatches
    /\ ~last.err
    /\ LET p == Patch(img, n, strip, done + 1)
       IN  /\ img' = IF p.err THEN img ELSE p.img
           /\ last' = [err |-> p.err, n |-> n, strip |-> strip]
    /\ done' = done + 1

Next == \E n \in NewSizes, strip \in BOOLEAN : DoPatch(n, strip)
Spec == Init /\ [][Next]_vars

\* C09
Layout == LET P == Project(img) IN ConsistentBut(P, Ragged(P)) /\ (done > 0 /\ ~last.err => RsrcEntry(P))
\* The sources are what the library promises to handle
Sources == done = 0 => Source(Project(img))

\* C06: the resource section holds what was given
Embedded ==
    done > 0 /\ ~last.err =>
        LET P == Project(img)
            r == CHOOSE i \in RsrcIdx(P) : TRUE
        IN  SubSeq(P.secs[r].d, 1, last.n) = [j \in 1..last.n |-> <<"new", done, j>>]

\* C08, C09, C11
PatchKeeps ==
    [][LET P == Project(img)
           Q == Project(img')
       IN  IF last'.err
           THEN ~RoomFor(P, 1) /\ img' = img
           ELSE /\ Intact(P, Q, last'.strip) /\ SizesFollow(P, Q)
                /\ AddressesKept(P, Q)
                /\ IF last'.strip THEN Stripped(P, Q) ELSE Signed(P) => CertKept(P, Q)]_vars
=============================================================================
