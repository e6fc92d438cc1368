--------------------------- MODULE ManifestTrace ---------------------------
(***************************************************************************)
(* Sessions on application manifests: C21 (XML) and C22 (JSON).            *)
(***************************************************************************)
EXTENDS TraceBase, Manifest

CONSTANT Props

vars == <<sid, pos>>
J(p, cond) == (p \in Props => cond) = TRUE

M(x) == [name |-> x.name, ver |-> x.ver, desc |-> x.desc, os |-> x.os, level |-> x.level, dpi |-> x.dpi,
         on |-> {x.on[i] : i \in 1..Len(x.on)}]

\* A set was given settings m; xml is its manifest, and back what was read from it
SetManifest ==
    /\ IsEvent("set")
    /\ LET m == M(ev.m)
           doc == Document(ev.xml)
       IN  J("C21", /\ doc # <<>> /\ States(doc[1], m)
                    /\ ~ev.err /\ M(ev.back) = Kept(m) /\ ev.again)

\* Reads a manifest that something else wrote
\* (versions that are not valid are not judged)
ReadManifest ==
    /\ IsEvent("read")
    /\ J("C21", LET doc == Document(ev.xml) IN
                doc # <<>> =>
                    /\ ~ev.err
                    /\ LET r == Reading(doc[1])  a == M(ev.after) IN
                       IF r.ver = NoVersion THEN [a EXCEPT !.ver = NoVersion] = r ELSE a = r)

Marshal ==
    /\ IsEvent("marshal")
    /\ LET m == M(ev.m) IN
       J("C22", IF ~Valid(m) THEN ev.merr
                ELSE /\ ~ev.merr /\ DocOf(ev.doc, m, ev.name, ev.desc, ev.ver)
                     /\ ~ev.uerr /\ M(ev.back) = Kept(m))

Unmarshal ==
    /\ IsEvent("unmarshal")
    /\ J("C22", IF Decodes(ev.f) THEN ~ev.err /\ M(ev.after) = Decoded(ev.f) ELSE ev.err)

Init == TraceInit
Done == TraceDone
Next == SetManifest \/ ReadManifest \/ Marshal \/ Unmarshal \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
