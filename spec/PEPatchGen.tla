----------------------------- MODULE PEPatchGen -----------------------------
(***************************************************************************)
(* Prints every source image of PEPatch, with every size of resources to   *)
(* embed.  The driver makes real images with these layouts.                *)
(***************************************************************************)
EXTENDS PEPatch

CONSTANT Full  \* FALSE: only some combinations of what follows the sections

VARIABLES case

Trail(c) == <<c.ovl, c.cert, c.sym>>
SomeTail(c) == /\ Trail(c) \in {<<0, 0, "none">>, <<3, 2, "ovl">>, <<3, 0, "sec">>}
               /\ c.room \in {0, 1}
               /\ c.gap > 0 => Trail(c) = <<0, 0, "none">>
               /\ c.rev => Len(c.kinds) > 1 /\ Trail(c) # <<0, 0, "none">>

GenInit == /\ \E c \in Layouts, n \in NewSizes : /\ Sensible(c) /\ (Full \/ SomeTail(c))
                                                 /\ case = [c |-> c, n |-> n]
           /\ img = 0 /\ done = 0 /\ last = 0
GenSpec == GenInit /\ [][FALSE]_<<case, img, done, last>>
PrintCase == PrintT(<<"CASE", ToJson(case)>>)
=============================================================================
