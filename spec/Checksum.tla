------------------------------ MODULE Checksum ------------------------------
(***************************************************************************)
(* The checksum of PE images: the ones' complement sum of all 16-bit words *)
(* (an odd last byte counts as a word), the checksum field being zero,     *)
(* plus the length of the file.                                            *)
(***************************************************************************)
EXTENDS Naturals, Sequences, SequencesExt

Add(a, b) == LET s == a + b IN (s % 65536) + (s \div 65536)

\* w: the words of the file, at: offset of the checksum, that must be even
WordSum(w, at) ==
    LET z == [i \in 1..Len(w) |-> IF i = at \div 2 + 1 \/ i = at \div 2 + 2 THEN 0 ELSE w[i]]
    IN  FoldLeft(Add, 0, z)

\* as <<low half, high half>>
PECheckSum(w, at, size) == LET s == WordSum(w, at) + size IN <<s % 65536, s \div 65536>>
=============================================================================
