-------------------------------- MODULE Coff --------------------------------
(***************************************************************************)
(* A COFF object that holds resources, in three parts:                     *)
(*   head: the file header and the section header (60 bytes)               *)
(*   sec:  the beginning of the section                                    *)
(*   tail: what follows the section in the file                            *)
(***************************************************************************)
EXTENDS RsrcDir

Machine(arch) == CASE arch = "386"   -> 332
                   [] arch = "amd64" -> 34404
                   [] arch = "arm"   -> 452
                   [] arch = "arm64" -> 43620

\* IMAGE_REL_*_ADDR32NB: the address, relative to the base of the image
RelocType(arch) == CASE arch = "386"   -> 7
                     [] arch = "amd64" -> 3
                     [] arch = "arm"   -> 2
                     [] arch = "arm64" -> 2

Supported == {"386", "amd64", "arm", "arm64"}

PtrSym(h)   == U31(h, 8)
NumSym(h)   == U31(h, 12)
SecVA(h)    == U31(h, 32)
RawSize(h)  == U31(h, 36)
RawPtr(h)   == U31(h, 40)
PtrReloc(h) == U31(h, 44)
NumReloc(h) == U16(h, 52)

HeadersValid(h, arch) ==
    /\ Len(h) = 60
    /\ U16(h, 0) = Machine(arch)
    /\ U16(h, 2) = 1                                      \* one section
    /\ U16(h, 16) = 0                                     \* no optional header
    /\ Sub(h, 20, 8) = <<46, 114, 115, 114, 99, 0, 0, 0>> \* ".rsrc"
    /\ \A o \in {8, 12, 32, 36, 40, 44} : ~Top(h, o)
    /\ NumSym(h) < 65536
    /\ U16(h, 18) % 4 = 0 /\ U16(h, 18) < 8192             \* an object, not an image, that has relocations
    /\ Sub(h, 28, 4) = <<0, 0, 0, 0>>                      \* no virtual size
    /\ U16(h, 54) = 0 /\ Sub(h, 48, 4) = <<0, 0, 0, 0>>     \* no line numbers
    \* initialized data that can be read, and nothing else but an alignment
    /\ U8(h, 56) = 64 /\ U8(h, 57) = 0 /\ U8(h, 58) % 16 = 0 /\ U8(h, 59) = 64

\* The parts of the file are the headers, the section, relocations, symbols and strings, and nothing else
Tiles(h, tail, fileSize) ==
    LET tailPos == RawPtr(h) + RawSize(h)
        strPos == PtrSym(h) + 18 * NumSym(h)
    IN  /\ RawPtr(h) = 60
        /\ tailPos + Len(tail) = fileSize
        /\ PtrReloc(h) = tailPos \/ NumReloc(h) = 0
        /\ PtrSym(h) = tailPos + 10 * NumReloc(h)
        /\ In(tail, strPos - tailPos, 4)
        /\ ~Top(tail, strPos - tailPos)
        /\ U31(tail, strPos - tailPos) >= 4
        /\ strPos + U31(tail, strPos - tailPos) = fileSize

\* Symbol number i, of a table that starts at position at of tail, designates the start of the section
LocalSymbol(h, tail, at, i) ==
    LET p == at + 18 * i
    IN  /\ i < NumSym(h)
        /\ Sub(tail, p + 8, 4) = <<0, 0, 0, 0>>
        /\ U16(tail, p + 12) = 1
        /\ U16(tail, p + 14) \in {0, 32}
        /\ U8(tail, p + 16) = 3               \* known to this object only
        /\ i + U8(tail, p + 17) < NumSym(h)

SymbolIsSection(h, tail, i) == LocalSymbol(h, tail, PtrSym(h) - RawPtr(h) - RawSize(h), i)

\* One relocation per resource, on the address of its data
RelocsExact(h, sec, tail, arch) ==
    LET L == Leaves(sec, 0)
        p(i) == PtrReloc(h) - RawPtr(h) - RawSize(h) + 10 * (i - 1)
        I == 1..NumReloc(h)
    IN  /\ NumReloc(h) = Cardinality(L)
        /\ \A i \in I :
              /\ ~Top(tail, p(i)) /\ ~Top(tail, p(i) + 4)
              /\ U16(tail, p(i) + 8) = RelocType(arch)
              /\ SymbolIsSection(h, tail, U31(tail, p(i) + 4))
        /\ {U31(tail, p(i)) - SecVA(h) : i \in I} = {x.e : x \in L}
=============================================================================
