---------------------------- MODULE ManifestGen ----------------------------
(***************************************************************************)
(* Combinations of settings. Wide: every enumeration with features all on  *)
(* or all off, and every feature alone or missing with default values.     *)
(* Full: all of the enumerations with each of those sets of features.      *)
(***************************************************************************)
EXTENDS Manifest, Json

CONSTANT Full

VARIABLES m, chosen   \* chosen: the features of m are (before that, m does not count)

Lone == {{}, Features} \cup {{f} : f \in Features} \cup {Features \ {f} : f \in Features}
SomeName == Codes("some.name <&\"'>")
SomeText == Codes("text <b> & ]]> \"quoted\"")
All == [name : {<<>>, SomeName}, ver : {<<1, 2, 65535, 0>>}, desc : {<<>>, SomeText}, os : Systems, level : Levels, dpi : Awareness, on : Lone]
Few(x) == \/ x.on \in {{}, Features} /\ (x.name = <<>>) = (x.desc = <<>>)
          \/ x.os = 0 /\ x.level = 0 /\ x.dpi = 0

Init == chosen = FALSE /\ m \in {x \in All : x.on = {}}
Next == /\ ~chosen /\ chosen' = TRUE
        /\ \E S \in Lone : LET x == [m EXCEPT !.on = S] IN (Full \/ Few(x)) /\ m' = x
Spec == Init /\ [][Next]_<<m, chosen>>

\* --- A reference manifest, that states m: spec-level round trip -------------------
Open(name, ns) == Codes("<") \o Codes(name) \o Codes(" xmlns='") \o ns \o Codes("'>")
Close(name) == Codes("</") \o Codes(name) \o Codes(">")
Esc(t) == LET RECURSIVE E(_)
              E(s) == IF s = <<>> THEN <<>>
                      ELSE (IF Head(s) \in {38, 60, 62, 34, 39} THEN Codes("&#") \o Decimal(Head(s)) \o Codes(";") ELSE <<Head(s)>>) \o E(Tail(s))
          IN  E(t)
SetSeq(S) == LET RECURSIVE G(_) G(T) == IF T = {} THEN <<>> ELSE LET x == CHOOSE x \in T : TRUE IN <<x>> \o G(T \ {x}) IN G(S)
\* Concatenation of a function of the elements of S
Concat(S, F(_)) == LET q == SetSeq(S)
                       RECURSIVE C(_) C(i) == IF i > Len(q) THEN <<>> ELSE F(q[i]) \o C(i + 1)
                   IN  C(1)
FeatureXml(f) == Codes("<") \o Elements[f][2] \o Codes(" xmlns='") \o Elements[f][1] \o Codes("'>") \o Enabling(f) \o Codes("</") \o Elements[f][2] \o Codes(">")
Aware == CASE m.dpi = 1 -> "false" [] m.dpi = 2 -> "true/pm" [] OTHER -> "true"
Awarenesses == CASE m.dpi = 0 -> "system" [] m.dpi = 1 -> "unaware" [] m.dpi = 2 -> "permonitor" [] m.dpi = 3 -> "permonitorv2,system"
Reference_ ==
    Codes("<assembly xmlns='urn:schemas-microsoft-com:asm.v1' manifestVersion='1.0'>")
    \o (IF m.name = <<>> THEN <<>> ELSE Codes("<assemblyIdentity type='win32' name='") \o Esc(m.name) \o Codes("' version='") \o Dotted(m.ver) \o Codes("'/>"))
    \o (IF m.desc = <<>> THEN <<>> ELSE Codes("<description>") \o Esc(m.desc) \o Codes("</description>"))
    \o Open("compatibility", CompatV1) \o Codes("<application>")
    \o Concat({os \in Systems : os >= m.os}, LAMBDA os : Codes("<supportedOS Id='") \o SystemIds[os] \o Codes("'/>"))
    \o Codes("</application></compatibility>")
    \o Open("application", V3) \o Codes("<windowsSettings>")
    \o Codes("<dpiAware xmlns='") \o DpiAwareAt[1] \o Codes("'>") \o Codes(Aware) \o Codes("</dpiAware>")
    \o Codes("<dpiAwareness xmlns='") \o DpiAwarenessAt[1] \o Codes("'>") \o Codes(Awarenesses) \o Codes("</dpiAwareness>")
    \o Concat(m.on \cap DOMAIN Elements, FeatureXml)
    \o Codes("</windowsSettings></application>")
    \o Open("trustInfo", V3) \o Codes("<security><requestedPrivileges><requestedExecutionLevel level='") \o LevelWord(m.level)
    \o Codes("' uiAccess='") \o (IF "ui-access" \in m.on THEN True ELSE False_) \o Codes("'/></requestedPrivileges></security></trustInfo>")
    \o (IF "use-common-controls-v6" \in m.on
        THEN Codes("<dependency><dependentAssembly><assemblyIdentity type='win32' name='Microsoft.Windows.Common-Controls' version='6.0.0.0' ")
             \o Codes("processorArchitecture='*' publicKeyToken='6595b64144ccf1df' language='*'/></dependentAssembly></dependency>") ELSE <<>>)
    \o Codes("</assembly>")

Other == {[m EXCEPT !.os = ((m.os + 2) % 5) - 1], [m EXCEPT !.level = (@ + 1) % 3], [m EXCEPT !.dpi = (@ + 1) % 4], [m EXCEPT !.desc = @ \o <<33>>],
          [m EXCEPT !.name = @ \o <<33>>]}
         \cup {[m EXCEPT !.on = IF f \in @ THEN @ \ {f} ELSE @ \cup {f}] : f \in Features}
\* A manifest that states m reads as m, and neither states nor reads as settings that differ
StatesExactly ==
    chosen => LET d == Document(Reference_) IN
              /\ d # <<>>
              /\ States(d[1], m) /\ Reading(d[1]) = Kept(m)
              /\ \A x \in Other : ~States(d[1], x)

PrintCase == chosen => PrintT(<<"CASE", ToJson([m EXCEPT !.on = SetSeq(@)])>>)
=============================================================================
