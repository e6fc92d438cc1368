----------------------------- MODULE VersionCodec -----------------------------
(***************************************************************************)
(* The binary form of version information, as blocks are made by various    *)
(* tools, and the reader of package version, node by node.                  *)
(*                                                                          *)
(* A shape says what a block contains and how its author lays it out.       *)
(* Encode(sh) is the block; Meaning(sh) is what it says.  TLC checks on     *)
(* every shape that VersionTree, which judges the real code, reads Encode   *)
(* as Meaning; that the reader reaches it too, within the block and in a    *)
(* bounded number of steps; and that the layout of our own writer is        *)
(* WellFormed.  With a lie (a wrong length somewhere), only safety remains. *)
(***************************************************************************)
EXTENDS VersionTree, Json, TLC

CONSTANTS Fixed,    \* lengths of the fixed part
          Orders,   \* orders of the children of the root
          Terms,    \* numbers of terminators of values
          Tabs,     \* numbers of strings of the tables
          Chars,    \* lengths of values
          Lies,     \* what a length may be replaced with ("none": nothing)
          ALIGNVAL, \* FALSE: a reader that forgets the padding before children
          OWNEND    \* FALSE: a reader that does not limit a node to the end of its parent

VARIABLES sh,    \* the shape
          b,     \* the block
          stack, \* nodes being read: <<[end, pos, kind, lang]>>
          lt,    \* strings read so far
          far,   \* the farthest byte that was read, or that had to exist
          st     \* "run", "ok" or "err"

vars == <<sh, b, stack, lt, far, st>>

\* --- Blocks -------------------------------------------------------------------

LE(x) == <<x % 256, (x \div 256) % 256>>
Units16(s) == FoldLeft(LAMBDA t, c : t \o LE(c), <<>>, s)
Zeros(n) == [i \in 1..n |-> 0]
Pad4(s) == s \o Zeros(Align4(Len(s)) - Len(s))

\* A node: kind, length of its value as it is stated, key, value, children.
\* Its length may count the padding after it; an odd author does not pad the key of an empty node.
MakeNode(type, vlen, key, value, children, s) ==
    LET head == Zeros(2) \o LE(vlen) \o LE(type) \o Units16(key) \o <<0, 0>>
        body == IF s.odd /\ value = <<>> /\ children = <<>> THEN head ELSE Pad4(head) \o value
        all == FoldLeft(LAMBDA x, c : Pad4(x) \o c, body, children)
        n == IF s.padded THEN Pad4(all) ELSE all
    IN  LE(Len(n)) \o SubSeq(n, 3, Len(n))

Digit(n, upper) == IF n < 10 THEN 48 + n ELSE (IF upper THEN 55 ELSE 87) + n
Hex8(x, y, upper) == [i \in 1..8 |-> LET v == IF i <= 4 THEN x ELSE y
                                         d == CASE (i - 1) % 4 = 0 -> v \div 4096 [] (i - 1) % 4 = 1 -> (v \div 256) % 16
                                                [] (i - 1) % 4 = 2 -> (v \div 16) % 16 [] OTHER -> v % 16
                                     IN  Digit(d, upper)]

Key(i) == IF i = 1 THEN <<75>> ELSE <<75, 8364>>
Val(i, n) == [k \in 1..n |-> 64 + i + k]
Lang(t) == IF t = 1 THEN 1033 ELSE 43962     \* 0409, ABBA

\* A value of n characters: its length is in characters, with its terminators if there are some
StringNode(s, i) == LET n == s.chars[i]
                    IN  MakeNode(1, n + s.term, Key(i), Units16(Val(i, n)) \o Zeros(2 * s.term), <<>>, s)
TableNode(s, t) == MakeNode(1, 0, Hex8(Lang(t), CodePage, s.odd), <<>>,
                            [i \in 1..s.tabs[t] |-> StringNode(s, i)], s)
InfoNode(s, ts) == MakeNode(1, 0, StringFileInfo, <<>>, [i \in 1..Len(ts) |-> TableNode(s, ts[i])], s)
VarNode(s) == MakeNode(1, 0, VarFileInfo, <<>>,
                       <<MakeNode(0, 4 * Len(s.tabs), Translation,
                                  FoldLeft(LAMBDA x, t : x \o LE(Lang(t)) \o LE(CodePage), <<>>, [t \in 1..Len(s.tabs) |-> t]), <<>>, s)>>, s)
Unknown(s) == MakeNode(1, 2, <<88>>, <<1, 0, 0, 0>>, <<StringNode(s, 1)>>, s)

FixedPart(n) == LE(1213) \o LE(65263) \o LE(0) \o LE(1)
                \o LE(2) \o LE(1) \o LE(4) \o LE(3) \o LE(6) \o LE(5) \o LE(8) \o LE(7)
                \o LE(63) \o LE(0) \o LE(2) \o LE(0) \o LE(4) \o LE(4) \o LE(2) \o LE(0) \o Zeros(12)
                \o Zeros(n - 52)

Children0(s) ==
    LET all == [t \in 1..Len(s.tabs) |-> t]
        c == CASE s.order = "sv" -> <<InfoNode(s, all), VarNode(s)>>
               [] s.order = "vs" -> <<VarNode(s), InfoNode(s, all)>>
               [] s.order = "s" -> <<InfoNode(s, all)>>
               [] s.order = "v" -> <<VarNode(s)>>
               [] s.order = "svs" -> <<InfoNode(s, SubSeq(all, 1, 1)), VarNode(s), InfoNode(s, SubSeq(all, 2, Len(all)))>>
    IN  IF s.odd THEN <<Unknown(s)>> \o c ELSE c

Honest(s) == MakeNode(0, s.fixed, VsVersionInfo, IF s.fixed = 0 THEN <<>> ELSE FixedPart(s.fixed), Children0(s), s)

Encode(s) == LET x == Honest(s) IN
             IF s.lie.to = -1 \/ s.lie.at + 2 > Len(x) THEN x
             ELSE SubSeq(x, 1, s.lie.at) \o LE(s.lie.to) \o SubSeq(x, s.lie.at + 3, Len(x))

Meaning(s) ==
    LET has == s.order # "v"
        tabs == {t \in 1..Len(s.tabs) : has /\ s.tabs[t] > 0}
    IN  [fv |-> IF s.fixed = 0 THEN ZeroVersion ELSE <<1, 2, 3, 4>>,
         pv |-> IF s.fixed = 0 THEN ZeroVersion ELSE <<5, 6, 7, 8>>,
         fl |-> IF s.fixed = 0 THEN <<FALSE, FALSE, FALSE, FALSE, FALSE>> ELSE <<FALSE, TRUE, FALSE, FALSE, FALSE>>,
         ty |-> IF s.fixed = 0 THEN 0 ELSE 1,
         tk |-> <<0, 0, 0, 0>>,
         lt |-> [l \in {Lang(t) : t \in tabs} |->
                    LET t == CHOOSE t \in tabs : Lang(t) = l
                    IN  [k \in {Key(i) : i \in 1..s.tabs[t]} |-> LET i == CHOOSE i \in 1..2 : Key(i) = k IN Val(i, s.chars[i])]]]

NoLie == [at |-> 0, to |-> -1]
NoLies == {NoLie}
SomeLies == {NoLie} \cup [at : {2 * i : i \in 0..150}, to : {0, 5, 6, 7, 8, 12, 60, 65535}]
OneTab == {<<2>>}
SomeTabs == {<<>>, <<0>>, <<1>>, <<2>>, <<1, 1>>, <<0, 1>>, <<2, 1>>}
Shapes == {s \in [fixed : Fixed, order : Orders, padded : BOOLEAN, term : Terms, odd : BOOLEAN, chars : Chars \X Chars, tabs : Tabs, lie : Lies] :
             \* the second length only matters with a second string
             /\ (\A t \in 1..Len(s.tabs) : s.tabs[t] < 2) => s.chars[2] = 0
             /\ s.order = "svs" => Len(s.tabs) = 2}

\* --- The reader ----------------------------------------------------------------

Frame(end, pos, kind, lang) == [end |-> end, pos |-> pos, kind |-> kind, lang |-> lang]

Init == /\ sh \in Shapes /\ b = Encode(sh)
        /\ stack = <<Frame(Len(b), 0, "top", 0)>>
        /\ lt = <<>> /\ far = 0 /\ st = "run"

Top0 == stack[Len(stack)]
Below == SubSeq(stack, 1, Len(stack) - 1)
Farther(x, y) == IF x > y THEN x ELSE y

Fail == st' = "err" /\ UNCHANGED <<sh, b, stack, lt>>

\* The next node of the node on top of the stack
ReadNode ==
    LET f == Top0
        p == IF ALIGNVAL THEN Align4(f.pos) ELSE f.pos
        limit == IF OWNEND THEN f.end ELSE Len(b)
    IN
    /\ st = "run" /\ p < f.end
    /\ IF p + 6 > limit THEN Fail /\ UNCHANGED far
       ELSE LET len == NLen(b, p) IN
       IF len < 6 \/ len > limit - p THEN Fail /\ far' = Farther(far, p + 6)
       ELSE LET end == p + len
                n == Units(b, p + 6, end)
                val == p + 6 + 2 * (n + 1)
                vl == NValue(b, p)
                key == Text(b, p + 6, n)
                over == vl > 0 /\ Align4(val) + vl > end
                up == Below \o <<[f EXCEPT !.pos = end]>>
            IN
            /\ far' = Farther(far, end)
            /\ IF n < 1 \/ over THEN Fail
               ELSE CASE f.kind = "top" /\ key = VsVersionInfo ->
                           /\ stack' = up \o <<Frame(end, val + vl, "root", 0)>>
                           /\ UNCHANGED <<sh, b, lt, st>>
                      [] f.kind = "root" /\ key = StringFileInfo ->
                           /\ stack' = up \o <<Frame(end, val, "info", 0)>>
                           /\ UNCHANGED <<sh, b, lt, st>>
                      [] f.kind = "info" ->
                           IF ~HexKey(key) \/ Hex4(key, 5) # CodePage THEN Fail
                           ELSE /\ stack' = up \o <<Frame(end, val, "table", Hex4(key, 1))>>
                                /\ UNCHANGED <<sh, b, lt, st>>
                      [] f.kind = "table" ->
                           IF vl > 0 /\ Align4(val) + 2 * vl > end THEN Fail
                           ELSE LET t == Text(b, Align4(val), vl)
                                    z == {i \in 1..vl : t[i] = 0}
                                    v == IF z = {} THEN t ELSE SubSeq(t, 1, LowestOf(z) - 1)
                                    own == IF f.lang \in DOMAIN lt THEN lt[f.lang] ELSE <<>>
                                IN  /\ lt' = (f.lang :> ((key :> v) @@ own)) @@ lt
                                    /\ stack' = up
                                    /\ UNCHANGED <<sh, b, st>>
                      [] OTHER -> stack' = up /\ UNCHANGED <<sh, b, lt, st>>

\* A node has no more children.  The block itself is a single node: what follows it is not read.
EndNode ==
    /\ st = "run"
    /\ Align4(Top0.pos) >= Top0.end
    /\ IF Len(stack) <= 2 THEN st' = "ok" /\ stack' = <<>> ELSE st' = st /\ stack' = Below
    /\ UNCHANGED <<sh, b, lt, far>>

Done == st # "run" /\ UNCHANGED vars
Next == ReadNode \/ EndNode \/ Done
Spec == Init /\ [][Next]_vars /\ WF_vars(ReadNode \/ EndNode)

\* --- What is expected -------------------------------------------------------------

AtStart == stack # <<>> /\ Len(stack) = 1 /\ stack[1].pos = 0

\* The specification that judges real blocks and the shapes agree
SpecReads == (AtStart /\ sh.lie = NoLie => TreeInfo(b) = Meaning(sh))
\* The layout of our own writer
OwnLayout(s) == s.fixed = 52 /\ s.order \in {"sv", "vs"} /\ ~s.padded /\ s.term = 1 /\ ~s.odd /\ s.lie = NoLie
OwnIsWellFormed == (AtStart /\ OwnLayout(sh) => WellFormed(b))
\* A string without a terminator, or with two, or an unknown node, is not how we write
OthersAreNot == (AtStart /\ sh.lie = NoLie /\ (sh.odd \/ sh.fixed # 52 \/ sh.order \notin {"sv", "vs"}) => ~WellFormed(b))

InBlock == far <= Len(b)
Nested == \A i \in 2..Len(stack) : stack[i].end <= stack[i - 1].end /\ stack[i].end = stack[i - 1].pos
Shallow == Len(stack) <= 4
\* The reader ends
Ends == <>(st # "run")
\* with what the block says
ReadsMeaning == st = "ok" /\ sh.lie = NoLie => lt = Meaning(sh).lt
NeverRefuses == sh.lie = NoLie => st # "err"

\* Only the blocks, for the driver
GenSpec == Init /\ [][UNCHANGED vars]_vars
PrintCase == PrintT(<<"CASE", ToJson([b |-> b])>>)
=============================================================================
