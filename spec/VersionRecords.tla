--------------------------- MODULE VersionRecords ---------------------------
(***************************************************************************)
(* Version information as the driver records it.                           *)
(***************************************************************************)
EXTENDS VersionTree

\* Tables are recorded as sequences of pairs
Fun(pairs) == [k \in {x[1] : x \in ToSet(pairs)} |-> (CHOOSE x \in ToSet(pairs) : x[1] = k)[2]]
TableOf(pairs) == LET f == Fun(pairs) IN [l \in DOMAIN f |-> Fun(f[l])]

\* An info, as recorded: ts is its date (exact), tk its date in units of 100 ns since 1601,
\* rem tells whether there is a remainder, dated whether it can be stored in the binary form.
Info(x) == [fv |-> x.fv, pv |-> x.pv, fl |-> x.fl, ty |-> x.ty, ts |-> x.ts, tk |-> x.tk, rem |-> x.rem, lt |-> TableOf(x.lt)]
Fixed(x) == <<x.fv, x.pv, x.fl, x.ty, x.ts>>
SameInfo(x, y) == Fixed(x) = Fixed(y) /\ Trimmed(x.lt) = Trimmed(y.lt)

ZeroInfo == [fv |-> ZeroVersion, pv |-> ZeroVersion, fl |-> <<FALSE, FALSE, FALSE, FALSE, FALSE>>, ty |-> 0,
             ts |-> <<>>, tk |-> <<0, 0, 0, 0>>, rem |-> FALSE, lt |-> <<>>]

\* Date t in units of 100 ns, or the following one if there is a remainder
NextTick(t) == LET c3 == t[4] + 1  c2 == t[3] + c3 \div 65536  c1 == t[2] + c2 \div 65536  c0 == t[1] + c1 \div 65536
               IN  <<c0, c1 % 65536, c2 % 65536, c3 % 65536>>
SameTick(x, tk) == tk = x.tk \/ (x.rem /\ tk = NextTick(x.tk))

Says(T, x) == /\ T.fv = x.fv /\ T.pv = x.pv /\ T.fl = x.fl /\ T.ty = x.ty
              /\ SameTick(x, T.tk)
              /\ T.lt = Trimmed(x.lt)
=============================================================================
