------------------------------- MODULE Bytes -------------------------------
(***************************************************************************)
(* Little-endian reads in byte sequences. Offsets start at zero.           *)
(* TLC integers have 32 bits: U31 leaves the highest bit out, and Top      *)
(* gives it. In(b, o, n) tells if n bytes can be read at o.                *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences

In(b, o, n) == o >= 0 /\ o <= Len(b) /\ n <= Len(b) - o

U8(b, o)  == b[o + 1]
U16(b, o) == b[o + 1] + 256 * b[o + 2]
U31(b, o) == b[o + 1] + 256 * b[o + 2] + 65536 * b[o + 3] + 16777216 * (b[o + 4] % 128)
Top(b, o) == b[o + 4] >= 128
Sub(b, o, n) == SubSeq(b, o + 1, o + n)

\* [s, e) and [s2, e2) are disjoint
Apart(s, e, s2, e2) == e <= s2 \/ e2 <= s
RoundUp(x, a) == ((x + a - 1) \div a) * a
=============================================================================
