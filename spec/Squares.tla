------------------------------- MODULE Squares -------------------------------
(***************************************************************************)
(* How a picture becomes the square image of an icon or of a cursor: the   *)
(* arithmetic of icon.go (imageInSquareNRGBA, resizeImage) on every small   *)
(* picture, wherever its bounds are.                                       *)
(*                                                                         *)
(* Go divides towards zero. TLA+ divides towards minus infinity.           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Json, TLC

CONSTANTS
  MaxSide,      \* pictures have sides from 1 to MaxSide
  Origins,      \* where bounds start
  Longs, Sizes, \* resized pictures: their longest side, and the requested sizes
  ORIGIN,       \* TRUE: the position of the bounds is taken into account
  GUARD         \* TRUE: a very thin picture keeps one pixel of thickness

VARIABLES w, h, mx, my, center, y, x, square, pc
vars == <<w, h, mx, my, center, y, x, square, pc>>

Quo(a, b) == IF a < 0 THEN -((-a) \div b) ELSE a \div b      \* b > 0
Longest(a, b) == IF a < b THEN b ELSE a

Side == Longest(w, h)
OffX == (IF ORIGIN THEN -mx ELSE 0) - (IF center THEN Quo(w - Side, 2) ELSE 0)
OffY == (IF ORIGIN THEN -my ELSE 0) - (IF center THEN Quo(h - Side, 2) ELSE 0)
InSquare(p) == p[1] \in 0..(Side - 1) /\ p[2] \in 0..(Side - 1)

Init == /\ w \in 1..MaxSide /\ h \in 1..MaxSide /\ mx \in Origins /\ my \in Origins /\ center \in BOOLEAN
        /\ y = my /\ x = mx /\ square = <<>> /\ pc = "scan"

\* Copies a pixel; what falls out of the square is lost
Copy == /\ pc = "scan" /\ y < my + h /\ x < mx + w
        /\ LET p == <<x + OffX, y + OffY>> IN
           square' = IF InSquare(p) THEN (p :> <<x - mx, y - my>>) @@ square ELSE square
        /\ x' = x + 1
        /\ UNCHANGED <<w, h, mx, my, center, y, pc>>
NextRow == /\ pc = "scan" /\ y < my + h /\ x = mx + w
           /\ y' = y + 1 /\ x' = mx
           /\ UNCHANGED <<w, h, mx, my, center, square, pc>>
Finish == /\ pc = "scan" /\ y = my + h
          /\ pc' = "done"
          /\ UNCHANGED <<w, h, mx, my, center, y, x, square>>
Done == pc = "done" /\ UNCHANGED vars
Next == Copy \/ NextRow \/ Finish \/ Done
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* --- The user's view -------------------------------------------------------

\* Every pixel is somewhere, next to its neighbours, the same way up
WholeAt(ox, oy) ==
    /\ DOMAIN square = {<<ox + i, oy + j>> : i \in 0..(w - 1), j \in 0..(h - 1)}
    /\ \A p \in DOMAIN square : square[p] = <<p[1] - ox, p[2] - oy>>
Middle(n, t) == {(n - t) \div 2, (n - t + 1) \div 2}

ShowsAll == pc = "done" =>
    IF center THEN \E ox \in Middle(Side, w), oy \in Middle(Side, h) : WholeAt(ox, oy)
    ELSE WholeAt(0, 0)
Terminates == <>(pc = "done")

\* --- Resizing ----------------------------------------------------------------

\* The resizing library derives a side that is not given as floor(0.7 + its proportional length), and does nothing for zero
Derived(short, long, size) == (7 * long + 10 * short * size) \div (10 * long)
Thickness(short, long, size) ==
    IF short = long THEN size
    ELSE IF GUARD /\ size * short < long THEN 1
    ELSE Derived(short, long, size)

\* The picture fits in the square, is there, and has its proportions, within a pixel
Proportional(short, long, size) ==
    LET t == Thickness(short, long, size)
        d == t * long - size * short
    IN  t >= 1 /\ t <= size /\ -long <= d /\ d <= long
MaxLong == CHOOSE l \in Longs : \A m \in Longs : m <= l
Shapes == {<<s, l, n>> \in (1..MaxLong) \X Longs \X Sizes : s <= l}
\* Looked at once: in the state where the smallest picture is done
Resizes == (pc = "done" /\ w = 1 /\ h = 1 /\ mx = my /\ center /\ \A o \in Origins : mx <= o)
           => \A s \in Shapes : Proportional(s[1], s[2], s[3])

\* --- Cases for the real code ---------------------------------------------------

Place == [kind : {"place"}, w : 1..MaxSide, h : 1..MaxSide, mx : Origins, my : Origins]
\* Around what makes a picture thin: proportional lengths near 0, 0.3, 0.5, 1 and 1.5
Near(s) == LET p == 10 * s[1] * s[3] IN \E c \in {0, 3, 5, 10, 13, 15} : LET d == p - c * s[2] IN -10 * s[3] < d /\ d < 10 * s[3]
Thin == {[kind |-> "thin", w |-> s[1], h |-> s[2], mx |-> s[3], my |-> 0] : s \in {t \in Shapes : t[1] < t[2] /\ Near(t)}}

SomeOrigins == {-3, 0, 2}
MoreOrigins == {-3, -2, 0, 1, 5}

\* (mx stands for the size of thin pictures)
GenInit == /\ \E c \in Place \cup Thin : pc = c.kind /\ w = c.w /\ h = c.h /\ mx = c.mx /\ my = c.my
           /\ center = FALSE /\ y = 0 /\ x = 0 /\ square = <<>>
GenSpec == GenInit /\ [][UNCHANGED vars]_vars
PrintCase == PrintT(<<"CASE", ToJson([kind |-> pc, w |-> w, h |-> h, mx |-> mx, my |-> my])>>)
=============================================================================
