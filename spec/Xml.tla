-------------------------------- MODULE Xml --------------------------------
(***************************************************************************)
(* XML 1.0 documents with namespaces, without document type declarations.  *)
(* A document is a sequence of code points. Document(c) is <<>> when c is  *)
(* not well-formed, and otherwise a sequence of one element: a record of   *)
(* its namespace, name, attributes (a set of <<name, value>>), children    *)
(* (a sequence of elements) and text.                                      *)
(*                                                                         *)
(* Operators that read something at index i return a record whose field p  *)
(* is the index that follows it, or 0 when it cannot be read.              *)
(***************************************************************************)
EXTENDS Text, FiniteSets

IsChar(x) == x \in {9, 10, 13} \/ (x >= 32 /\ x <= 55295) \/ (x >= 57344 /\ x <= 65533) \/ (x >= 65536 /\ x <= 1114111)

\* Ends of lines are line feeds
EndOfLines(c) ==
    IF \A i \in 1..Len(c) : c[i] # 13 THEN c
    ELSE LET keep == SelectSeq(Now([i \in 1..Len(c) |-> i]), LAMBDA i : ~(i > 1 /\ c[i] = 10 /\ c[i - 1] = 13))
         IN  Now([k \in 1..Len(keep) |-> IF c[keep[k]] = 13 THEN 10 ELSE c[keep[k]]])

At(c, i) == IF i >= 1 /\ i <= Len(c) THEN c[i] ELSE -1
Is(c, i, t) == i + Len(t) - 1 <= Len(c) /\ SubSeq(c, i, i + Len(t) - 1) = t

NameStart(x) == (x >= 97 /\ x <= 122) \/ (x >= 65 /\ x <= 90) \/ x \in {58, 95} \/ (x >= 192 /\ x \notin {215, 247})
NameChar(x) == NameStart(x) \/ Digit(x) \/ x \in {45, 46, 183}

RECURSIVE NameEnd(_, _), SkipBlanks(_, _), FindText(_, _, _)
NameEnd(c, i) == IF NameChar(At(c, i)) THEN NameEnd(c, i + 1) ELSE i
SkipBlanks(c, i) == IF Blank(At(c, i)) THEN SkipBlanks(c, i + 1) ELSE i
FindText(c, i, t) == LET j == IndexFrom(c, i, Head(t)) IN
                     IF j = 0 THEN 0 ELSE IF Is(c, j, t) THEN j ELSE FindText(c, j + 1, t)

CommentStart == Codes("<!--")
CommentEnd == Codes("-->")
CDataStart == Codes("<![CDATA[")
CDataEnd == Codes("]]>")
PIStart == Codes("<?")
PIEnd == Codes("?>")
EndTag == Codes("</")
Dashes == Codes("--")
XmlName == Codes("xml")
Xmlns == Codes("xmlns")

\* --- References ------------------------------------------------------------------

HexDigit(x) == IF Digit(x) THEN x - 48 ELSE IF x >= 65 /\ x <= 70 THEN x - 55 ELSE IF x >= 97 /\ x <= 102 THEN x - 87 ELSE -1
RECURSIVE BaseValue(_, _, _)
BaseValue(t, base, n) == IF t = <<>> THEN n
                         ELSE LET d == HexDigit(Head(t)) IN
                              IF d < 0 \/ d >= base \/ n > 1114111 THEN -1 ELSE BaseValue(Tail(t), base, base * n + d)
\* The character that reference &t; stands for, or -1
Reference(t) ==
    IF t = Codes("lt") THEN 60 ELSE IF t = Codes("gt") THEN 62 ELSE IF t = Codes("amp") THEN 38
    ELSE IF t = Codes("quot") THEN 34 ELSE IF t = Codes("apos") THEN 39
    ELSE IF Len(t) >= 3 /\ SubSeq(t, 1, 2) = Codes("#x") THEN BaseValue(SubSeq(t, 3, Len(t)), 16, 0)
    ELSE IF Len(t) >= 2 /\ t[1] = 35 THEN BaseValue(Tail(t), 10, 0)
    ELSE -1

\* t with references replaced; [ok, t]
RECURSIVE Dereferenced(_)
Dereferenced(t) ==
    LET i == IndexFrom(t, 1, 38) IN
    IF i = 0 THEN [ok |-> TRUE, t |-> t]
    ELSE LET j == IndexFrom(t, i, 59)
             x == IF j = 0 THEN -1 ELSE Reference(SubSeq(t, i + 1, j - 1))
             rest == Dereferenced(SubSeq(t, j + 1, Len(t)))
         IN  IF ~IsChar(x) THEN [ok |-> FALSE, t |-> <<>>]
             ELSE [ok |-> rest.ok, t |-> SubSeq(t, 1, i - 1) \o <<x>> \o rest.t]

\* --- Elements ---------------------------------------------------------------------

NoAttrs == [p |-> 0, as |-> <<>>, by |-> "none"]
\* Attributes from i on, and what ends them: ">", "/>" or "?>"
RECURSIVE Attrs(_, _)
Attrs(c, i) ==
    LET w == SkipBlanks(c, i) IN
    IF At(c, w) = 62 THEN [p |-> w + 1, as |-> <<>>, by |-> "open"]
    ELSE IF At(c, w) = 47 /\ At(c, w + 1) = 62 THEN [p |-> w + 2, as |-> <<>>, by |-> "empty"]
    ELSE IF At(c, w) = 63 /\ At(c, w + 1) = 62 THEN [p |-> w + 2, as |-> <<>>, by |-> "pi"]
    ELSE IF w = i \/ ~NameStart(At(c, w)) THEN NoAttrs
    ELSE LET n == NameEnd(c, w)
             e == SkipBlanks(c, n)
             q == SkipBlanks(c, e + 1)
             k == IF At(c, e) = 61 /\ At(c, q) \in {34, 39} THEN IndexFrom(c, q + 1, c[q]) ELSE 0
             raw == SubSeq(c, q + 1, k - 1)
             v == Dereferenced(Now([x \in 1..Len(raw) |-> IF Blank(raw[x]) THEN 32 ELSE raw[x]]))
         IN  IF k = 0 THEN NoAttrs
             ELSE IF ~v.ok \/ IndexFrom(raw, 1, 60) # 0 THEN NoAttrs
             ELSE LET rest == Attrs(c, k + 1) IN
                  [rest EXCEPT !.as = <<<<SubSeq(c, w, n - 1), v.t>>>> \o @]

NoContent == [p |-> 0, kids |-> <<>>, text |-> <<>>]

\* A comment or a processing instruction at i: the index that follows, or 0
Skipped(c, i) ==
    IF Is(c, i, CommentStart)
    THEN LET k == FindText(c, i + 4, Dashes) IN IF k # 0 /\ Is(c, k, CommentEnd) THEN k + 3 ELSE 0
    ELSE IF Is(c, i, PIStart) /\ NameStart(At(c, i + 2))
    THEN LET n == NameEnd(c, i + 2)
             k == FindText(c, n, PIEnd)
         IN  IF k # 0 /\ Lower(SubSeq(c, i + 2, n - 1)) # XmlName /\ (n = k \/ Blank(At(c, n))) THEN k + 2 ELSE 0
    ELSE 0

RECURSIVE Element(_, _), Content(_, _)
\* Content of an element from i on, up to the end tag
Content(c, i) ==
    LET j == IndexFrom(c, i, 60)
        raw == SubSeq(c, i, j - 1)
        t == Dereferenced(raw)
    IN  IF j = 0 THEN NoContent
        ELSE IF ~t.ok \/ FindText(raw, 1, CDataEnd) # 0 THEN NoContent
        ELSE IF Is(c, j, EndTag) THEN [p |-> j, kids |-> <<>>, text |-> t.t]
        ELSE IF Is(c, j, CDataStart)
        THEN LET k == FindText(c, j + 9, CDataEnd) IN
             IF k = 0 THEN NoContent
             ELSE LET rest == Content(c, k + 3) IN [rest EXCEPT !.text = t.t \o SubSeq(c, j + 9, k - 1) \o @]
        ELSE IF At(c, j + 1) \in {33, 63}
        THEN LET k == Skipped(c, j) IN
             IF k = 0 THEN NoContent
             ELSE LET rest == Content(c, k) IN [rest EXCEPT !.text = t.t \o @]
        ELSE LET el == Element(c, j) IN
             IF el.p = 0 THEN NoContent
             ELSE LET rest == Content(c, el.p) IN [rest EXCEPT !.text = t.t \o @, !.kids = <<el>> \o @]

NoElement == [p |-> 0, tag |-> <<>>, as |-> <<>>, kids |-> <<>>, text |-> <<>>]
Element(c, i) ==
    IF At(c, i) # 60 \/ ~NameStart(At(c, i + 1)) THEN NoElement
    ELSE LET n == NameEnd(c, i + 1)
             tag == SubSeq(c, i + 1, n - 1)
             a == Attrs(c, n)
         IN  IF a.p = 0 \/ a.by = "pi" \/ Cardinality({a.as[x][1] : x \in 1..Len(a.as)}) # Len(a.as) THEN NoElement
             ELSE IF a.by = "empty" THEN [p |-> a.p, tag |-> tag, as |-> a.as, kids |-> <<>>, text |-> <<>>]
             ELSE LET in == Content(c, a.p) IN
                  IF in.p = 0 THEN NoElement
                  ELSE LET e == SkipBlanks(c, in.p + 2 + Len(tag)) IN
                       IF Is(c, in.p + 2, tag) /\ At(c, e) = 62
                       THEN [p |-> e + 1, tag |-> tag, as |-> a.as, kids |-> in.kids, text |-> in.text]
                       ELSE NoElement

\* --- Namespaces --------------------------------------------------------------------

\* <<prefix, local name>>
Parted(name) == LET i == IndexFrom(name, 1, 58) IN
                IF i = 0 THEN <<<<>>, name>> ELSE <<SubSeq(name, 1, i - 1), SubSeq(name, i + 1, Len(name))>>

Lookup(env, prefix) == LET S == {e \in env : e[1] = prefix} IN IF S = {} THEN <<>> ELSE (CHOOSE e \in S : TRUE)[2]
IsDecl(name) == name = Xmlns \/ Parted(name)[1] = Xmlns
NoResolved == [ok |-> FALSE, ns |-> <<>>, name |-> <<>>, attrs |-> {}, kids |-> <<>>, text |-> <<>>]

\* env: set of <<prefix, namespace>>
RECURSIVE Resolved(_, _)
Resolved(el, env) ==
    LET decls == {el.as[x] : x \in {y \in 1..Len(el.as) : IsDecl(el.as[y][1])}}
        new == {<<IF d[1] = Xmlns THEN <<>> ELSE Parted(d[1])[2], d[2]>> : d \in decls}
        env2 == new \cup {e \in env : \A d \in new : d[1] # e[1]}
        attrs == {el.as[x] : x \in {y \in 1..Len(el.as) : ~IsDecl(el.as[y][1])}}
        tag == Parted(el.tag)
        kids == Now([k \in 1..Len(el.kids) |-> Resolved(el.kids[k], env2)])
        known(prefix) == prefix \in {<<>>, XmlName} \/ Lookup(env2, prefix) # <<>>
    IN  IF known(tag[1]) /\ (\A a \in attrs : known(Parted(a[1])[1])) /\ (\A k \in 1..Len(kids) : kids[k].ok)
        THEN [ok |-> TRUE, ns |-> Lookup(env2, tag[1]), name |-> tag[2], attrs |-> attrs, kids |-> kids, text |-> el.text]
        ELSE NoResolved

\* --- Documents -----------------------------------------------------------------------

RECURSIVE Misc(_, _)
Misc(c, i) == LET w == SkipBlanks(c, i)
                  k == IF At(c, w) = 60 THEN Skipped(c, w) ELSE 0
              IN  IF k = 0 THEN w ELSE Misc(c, k)

Declaration == Codes("<?xml")
\* The XML declaration that may be at i: the index that follows, or 0 if it is not valid
Declared(c, i) ==
    IF ~(Is(c, i, Declaration) /\ Blank(At(c, i + 5))) THEN i
    ELSE LET a == Attrs(c, i + 5)
             names == [x \in 1..Len(a.as) |-> a.as[x][1]]
         IN  IF /\ a.p # 0 /\ a.by = "pi"
                /\ names \in {<<Codes("version")>>, <<Codes("version"), Codes("encoding")>>, <<Codes("version"), Codes("standalone")>>,
                              <<Codes("version"), Codes("encoding"), Codes("standalone")>>}
                /\ a.as[1][2] = Codes("1.0")
                /\ \A x \in 2..Len(a.as) : Lower(a.as[x][2]) \in (IF names[x] = Codes("encoding") THEN {Codes("utf-8")} ELSE {Codes("yes"), Codes("no")})
             THEN a.p ELSE 0

Document(text) ==
    LET c == EndOfLines(text)
        start == Declared(c, IF At(c, 1) = 65279 THEN 2 ELSE 1)
        el == Element(c, Misc(c, start))
    IN  IF (\E i \in 1..Len(c) : ~IsChar(c[i])) \/ start = 0 THEN <<>>
        ELSE IF el.p = 0 THEN <<>>
        ELSE IF Misc(c, el.p) # Len(c) + 1 THEN <<>>
        ELSE LET r == Resolved(el, {}) IN IF r.ok THEN <<r>> ELSE <<>>

\* --- Navigation ------------------------------------------------------------------------

KidsNamed(el, name) == SelectSeq(el.kids, LAMBDA k : k.name = name)
RECURSIVE PathTo(_, _)
\* The elements reached from the elements els by following names
PathTo(els, names) ==
    IF names = <<>> THEN els
    ELSE LET RECURSIVE All(_)
             All(s) == IF s = <<>> THEN <<>> ELSE KidsNamed(Head(s), Head(names)) \o All(Tail(s))
         IN  PathTo(All(els), Tail(names))
Attr(el, name) == LET S == {a \in el.attrs : a[1] = name} IN IF S = {} THEN <<>> ELSE (CHOOSE a \in S : TRUE)[2]
=============================================================================
