------------------------------- MODULE Bounds -------------------------------
(***************************************************************************)
(* The readers of external data, reduced to what they access: every field  *)
(* they read has an arbitrary value, the sizes are arbitrary, and words    *)
(* have W values so that sums can wrap.  No access may leave its buffer,   *)
(* and every reader ends (C23).                                            *)
(*                                                                         *)
(* One cell stands for a header field, a UTF-16 unit or a byte.            *)
(*                                                                         *)
(* - "data": a resource data entry: an address and a size, inside a        *)
(*   section that was read at address base                                 *)
(* - "section": the raw data of a section, inside a file                   *)
(* - "name": the name of a resource: an offset, then a length that is read *)
(*   from there                                                            *)
(* - "tree": the tables of a resource directory: offsets that may point    *)
(*   anywhere, even to a table that is being read                          *)
(* - "block": the nodes of a version information block, that have a length *)
(*   and a value length, and contain each other                            *)
(* - "images": the entries of an icon file, which lead anywhere            *)
(***************************************************************************)
EXTENDS Naturals, Sequences

CONSTANTS MaxLen,   \* sizes of buffers: 0..MaxLen
          W,        \* number of values of a word
          WIDE,     \* whether sums are made with integers wider than words
          MINLEN,   \* whether the length of a node is checked to be at least that of its header
          LEVELS,   \* whether the depth of tables is checked
          Readers

Word == 0..(W-1)
Plus(a, b) == IF WIDE THEN a + b ELSE (a + b) % W
Hdr == 2               \* cells in the header of a node
Align(x) == x + (x % 2)

VARIABLES reader, len, acc, stack, st
vars == <<reader, len, acc, stack, st>>

\* acc: the last access, from, to (excluded), and the size of the buffer it was made in
Access(a, b, n) == acc' = <<a, b, n>>

Init == /\ reader \in Readers /\ len \in 0..MaxLen /\ acc = <<0, 0, 0>> /\ st = "go"
        /\ stack = IF reader = "tree" THEN <<[off |-> 0, left |-> 0, open |-> FALSE]>>
                   ELSE IF reader = "block" THEN <<[lo |-> 0, hi |-> len, pos |-> 0, kind |-> "root"]>>
                   ELSE <<>>

End(s) == st' = s /\ UNCHANGED <<reader, len>>
Stop(s) == End(s) /\ UNCHANGED <<acc, stack>>
Go == UNCHANGED <<reader, len, st>>

Data == /\ reader = "data" /\ st = "go" /\ UNCHANGED stack
        /\ \E base, rva, size \in Word :
             IF WIDE THEN IF rva < base \/ (rva - base) + size > len
                          THEN End("error") /\ UNCHANGED acc
                          ELSE Access(rva - base, rva - base + size, len) /\ End("ok")
             ELSE LET o == (rva + W - base) % W IN
                  IF (o + size) % W > len THEN End("error") /\ UNCHANGED acc
                  ELSE Access(o, o + size, len) /\ End("ok")

Section == /\ reader = "section" /\ st = "go" /\ UNCHANGED stack
           /\ \E ptr, size \in Word :
                IF Plus(ptr, size) > len THEN End("error") /\ UNCHANGED acc
                ELSE Access(ptr, ptr + size, len) /\ End("ok")

Name == /\ reader = "name" /\ st = "go" /\ UNCHANGED stack
        /\ \E off, n \in Word :
             IF Plus(off, 1) > len \/ Plus(Plus(off, 1), n) > len THEN End("error") /\ UNCHANGED acc
             ELSE Access(off, off + 1 + n, len) /\ End("ok")

\* Tables: a count, then as many entries, that are offsets. Three levels at most.
TreeOpen == /\ reader = "tree" /\ st = "go" /\ stack # <<>> /\ ~stack[1].open
            /\ \E n \in 0..2 :
                 IF Plus(stack[1].off, 1 + n) > len THEN Stop("error")
                 ELSE /\ Access(stack[1].off, stack[1].off + 1 + n, len) /\ Go
                      /\ stack' = <<[stack[1] EXCEPT !.left = n, !.open = TRUE]>> \o Tail(stack)
TreeStep == /\ reader = "tree" /\ st = "go" /\ stack # <<>> /\ stack[1].open
            /\ IF stack[1].left = 0
               THEN /\ stack' = Tail(stack) /\ UNCHANGED <<acc, reader, len>>
                    /\ st' = IF Len(stack) = 1 THEN "ok" ELSE "go"
               ELSE LET rest == <<[stack[1] EXCEPT !.left = @ - 1]>> \o Tail(stack) IN
                    \E off \in Word, sub \in BOOLEAN :
                      IF LEVELS /\ (sub <=> Len(stack) = 3) THEN Stop("error")
                      ELSE IF ~sub THEN stack' = rest /\ Go /\ UNCHANGED acc
                      ELSE stack' = <<[off |-> off, left |-> 0, open |-> FALSE]>> \o rest /\ Go /\ UNCHANGED acc

\* Nodes: lo and hi are the bounds of the node that is read, pos is the current position from lo
Kid(k) == CASE k = "root" -> {"sfi", "vfi"} [] k = "sfi" -> {"table"} [] k = "table" -> {"string"} [] OTHER -> {}
Block == /\ reader = "block" /\ st = "go" /\ stack # <<>>
         /\ LET f == stack[1]  n == f.hi - f.lo IN
            IF Align(f.pos) >= n /\ f.pos > 0
            THEN \* the end of a node, whose parent goes on after it
                 IF Len(stack) = 1 THEN Stop("ok")
                 ELSE /\ stack' = <<[stack[2] EXCEPT !.pos = f.hi - stack[2].lo]>> \o SubSeq(stack, 3, Len(stack))
                      /\ Go /\ UNCHANGED acc
            ELSE LET at == IF f.pos = 0 THEN f.lo ELSE f.lo + Align(f.pos)  \* where a node starts
                     left == f.hi - at
                 IN IF left < Hdr THEN Stop("error")
                    ELSE \E L, V \in Word, K \in 1..(MaxLen + 1), k \in (IF f.pos = 0 THEN {"root"} ELSE Kid(f.kind)) :
                      IF (MINLEN /\ L < Hdr) \/ L > left THEN Stop("error")
                      ELSE IF Hdr + K > L /\ L >= Hdr THEN Stop("error")  \* the key has no end
                      ELSE IF V > 0 /\ Plus(Align(Hdr + K), V) > L THEN Stop("error")
                      ELSE \* reads the key and the value
                           /\ Access(at, at + (IF V > 0 THEN Align(Hdr + K) + V ELSE Hdr + K), at + L)
                           /\ Go
                           /\ LET p == IF k = "root" THEN Hdr + K + V
                                       ELSE IF k \in {"string", "vfi"} THEN L ELSE Hdr + K
                                  node == [lo |-> at, hi |-> at + L, pos |-> p, kind |-> k]
                              IN stack' = IF f.pos = 0 THEN <<node>>
                                          ELSE <<node>> \o <<[f EXCEPT !.pos = at - f.lo]>> \o Tail(stack)

\* Entries of an icon file: an offset and a size; what they lead to may be outside, which is an error
Images == /\ reader = "images" /\ st = "go" /\ UNCHANGED stack
          /\ \E n \in 0..2, off, size \in Word :
               IF 1 + n > len \/ (n > 0 /\ Plus(off, size) > len) THEN End("error") /\ UNCHANGED acc
               ELSE (IF n = 0 THEN UNCHANGED acc ELSE Access(off, off + size, len)) /\ End("ok")

Done == st # "go" /\ UNCHANGED vars
Next == Data \/ Section \/ Name \/ TreeOpen \/ TreeStep \/ Block \/ Images \/ Done
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

InBounds == acc[1] <= acc[2] /\ acc[2] <= acc[3]
Shallow == reader = "tree" => Len(stack) <= 3
Ends == <>(st # "go")
=============================================================================
