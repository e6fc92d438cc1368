------------------------------- MODULE Ident -------------------------------
(***************************************************************************)
(* Identifiers of resources, and keys.                                     *)
(*                                                                         *)
(* A resource type or a resource is identified by an ordinal or by a name. *)
(* Both are encoded as sequences of integers so that TLC can compare them: *)
(*   the ordinal n is           <<1, n>>                                   *)
(*   the name c1 c2 ... ck is   <<0, c1, ..., ck>>   (code points)         *)
(* With that encoding, the canonical order (names before ordinals, names   *)
(* in case-sensitive ascending order, ordinals ascending) is simply the    *)
(* lexicographic order.                                                    *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets

IsID(id)   == id[1] = 1
IsName(id) == id[1] = 0
ID(n)      == <<1, n>>

\* The ordinals and names the library accepts.
ValidIdent(id) ==
    \/ /\ IsID(id)
       /\ id[2] # 0
    \/ /\ IsName(id)
       /\ Len(id) > 1
       /\ \A i \in 2..Len(id) : id[i] # 0

MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y

\* Strict lexicographic order.
SeqLT(a, b) ==
    LET n == IF Len(a) < Len(b) THEN Len(a) ELSE Len(b)
        D == {i \in 1..n : a[i] # b[i]}
    IN  IF D = {} THEN Len(a) < Len(b)
                  ELSE LET m == MinOf(D) IN a[m] < b[m]

\* A key is <<type, resource, language>>
KeyLT(k1, k2) ==
    IF k1[1] # k2[1] THEN SeqLT(k1[1], k2[1])
    ELSE IF k1[2] # k2[2] THEN SeqLT(k1[2], k2[2])
    ELSE k1[3] < k2[3]

\* Some well-known types
RTCursor == ID(1)
RTIcon == ID(3)
RTGroupCursor == ID(12)
RTGroupIcon == ID(14)
RTVersion == ID(16)
RTManifest == ID(24)
=============================================================================
