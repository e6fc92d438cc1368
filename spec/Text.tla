-------------------------------- MODULE Text --------------------------------
(***************************************************************************)
(* Texts are sequences of code points. Codes gives the one of an ASCII     *)
(* string (TLC handles strings as sequences).                              *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences

LOCAL Printable == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
LOCAL CodeOf == [x \in {SubSeq(Printable, i, i) : i \in 1..95} |-> 31 + (CHOOSE i \in 1..95 : SubSeq(Printable, i, i) = x)]
\* s itself (TLC evaluates functions late, and sequences at once)
Now(s) == SubSeq(s, 1, Len(s))
Codes(s) == Now([i \in 1..Len(s) |-> CodeOf[SubSeq(s, i, i)]])

Lower(t) == Now([i \in 1..Len(t) |-> IF t[i] >= 65 /\ t[i] <= 90 THEN t[i] + 32 ELSE t[i]])

Blank(c) == c \in {9, 10, 13, 32}
RECURSIVE TrimLeft(_), TrimRight(_)
TrimLeft(t) == IF t # <<>> /\ Blank(Head(t)) THEN TrimLeft(Tail(t)) ELSE t
TrimRight(t) == IF t # <<>> /\ Blank(t[Len(t)]) THEN TrimRight(SubSeq(t, 1, Len(t) - 1)) ELSE t
Trim(t) == TrimRight(TrimLeft(t))

Digit(c) == c >= 48 /\ c <= 57

\* First index from i on where t has c, or 0
RECURSIVE IndexFrom(_, _, _)
IndexFrom(t, i, c) == IF i > Len(t) THEN 0 ELSE IF t[i] = c THEN i ELSE IndexFrom(t, i + 1, c)

\* The parts of t separated by c
RECURSIVE SplitBy(_, _)
SplitBy(t, c) == LET i == IndexFrom(t, 1, c) IN
                 IF i = 0 THEN <<t>> ELSE <<SubSeq(t, 1, i - 1)>> \o SplitBy(SubSeq(t, i + 1, Len(t)), c)

\* A decimal number up to 65535, or -1
RECURSIVE ValueOf(_, _)
ValueOf(t, n) == IF t = <<>> THEN n
                 ELSE IF ~Digit(Head(t)) THEN -1
                 ELSE LET m == 10 * n + Head(t) - 48 IN IF m > 65535 THEN -1 ELSE ValueOf(Tail(t), m)
Number16(t) == IF t = <<>> THEN -1 ELSE ValueOf(t, 0)

RECURSIVE Decimal(_)
Decimal(n) == IF n < 10 THEN <<48 + n>> ELSE Append(Decimal(n \div 10), 48 + (n % 10))

\* "1.2.3.4"
Dotted(v) == Decimal(v[1]) \o <<46>> \o Decimal(v[2]) \o <<46>> \o Decimal(v[3]) \o <<46>> \o Decimal(v[4])

\* One to four numbers. NoVersion: it is not a version.
NoVersion == <<>>
Undotted(t) == LET p == SplitBy(t, 46)
                   n == [i \in 1..Len(p) |-> Number16(p[i])]
               IN  IF Len(p) > 4 \/ \E i \in 1..Len(p) : n[i] < 0 THEN NoVersion
                   ELSE [i \in 1..4 |-> IF i <= Len(p) THEN n[i] ELSE 0]
=============================================================================
