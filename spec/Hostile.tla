------------------------------ MODULE Hostile ------------------------------
(***************************************************************************)
(* Valid inputs with one or two fields set to hostile values: the fields   *)
(* that each format has, and the values that are worth giving them.  The   *)
(* driver replays every combination on real inputs (C23).                  *)
(*                                                                         *)
(* v is the current value of a field, n the size of what contains the      *)
(* thing it is about, top the value that has only its highest bit set.     *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json

CONSTANT Pairs  \* values that are given to two fields at once

Classes == {"zero", "one", "two", "three", "max", "max-1", "top", "top-1", "flip", "n", "n-1", "n+1", "n-v", "-v", "v+1", "v-1", "v+4", "2v", "self"}

Section(s) == {s \o x : x \in {".vs", ".va", ".raw", ".ptr", ".ch"}}
Table(t) == {t \o x : x \in {".names", ".ids", ".e0.id", ".e0.off", ".eN.id", ".eN.off"}}
Entry(e) == {e \o x : x \in {".dims", ".colors", ".planes", ".depth", ".size"}}
Node(n) == {n \o x : x \in {".len", ".vlen", ".type", ".key", ".nul"}}
Dib == {"dib.hsize", "dib.w", "dib.h", "dib.planes", "dib.depth"}
Header == {"h.res", "h.type", "h.count"}

Fields == [
  exe |-> {"lfanew", "nsec", "symptr", "optsize", "magic", "salign", "falign", "checksum", "ndirs",
           "rsrc.va", "rsrc.size", "cert.va", "cert.size", "reloc.va", "reloc.size",
           "name.len", "d.rva", "d.size"}
          \union UNION {Section(s) : s \in {"srsrc", "sfirst", "slast"}}
          \union UNION {Table(t) : t \in {"t0", "t1", "t2"}},
  ico |-> Header \union Entry("e0") \union Entry("e1") \union {"e0.off", "e1.off"},
  cur |-> Header \union Entry("e0") \union Entry("e1") \union {"e0.off", "e1.off"} \union Dib,
  grp |-> Header \union Entry("e0") \union Entry("e1") \union {"e0.id", "e1.id"},
  vb  |-> UNION {Node(n) : n \in {"n0", "n1", "n2", "n3"}} \union {"n1.keyend", "fixed.sig", "fixed.date"} ]

Kinds == DOMAIN Fields

VARIABLE case

Init == \E k \in Kinds : \E f \in Fields[k] :
          \/ \E c \in Classes : case = [kind |-> k, f |-> <<f>>, c |-> <<c>>]
          \/ \E c \in Pairs : case = [kind |-> k, f |-> <<f, "">>, c |-> <<c, "">>]
\* The second field of a pair is chosen apart, so that all processors have something to do
Next == /\ Len(case.f) = 2 /\ case.f[2] = ""
        /\ \E f \in Fields[case.kind] \ {case.f[1]}, c \in Pairs :
             case' = [case EXCEPT !.f[2] = f, !.c[2] = c]
Spec == Init /\ [][Next]_case

PrintCase == case.f[Len(case.f)] # "" => PrintT(<<"CASE", ToJson(case)>>)
=============================================================================
