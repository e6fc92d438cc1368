------------------------------ MODULE Manifest ------------------------------
(***************************************************************************)
(* Application manifests: what they are made from, what their XML states,  *)
(* and their JSON form.                                                    *)
(*                                                                         *)
(* Settings are a record: name, desc (texts), ver (four numbers), os       *)
(* (-1: Vista, 0: 7, 1: 8, 2: 8.1, 3: 10), level (0: invoker, 1: highest,  *)
(* 2: administrator), dpi (0: system, 1: unaware, 2: per monitor, 3: per   *)
(* monitor V2) and on: the set of the features that are enabled.           *)
(***************************************************************************)
EXTENDS Xml, TLC

Systems == -1..3
Levels == 0..2
Awareness == 0..3
Features == {"ui-access", "auto-elevate", "disable-theming", "disable-window-filtering", "high-resolution-scrolling-aware",
             "ultra-high-resolution-scrolling-aware", "long-path-aware", "printer-driver-isolation", "gdi-scaling",
             "segment-heap", "use-common-controls-v6"}

Valid(m) == m.os \in Systems /\ m.level \in Levels /\ m.dpi \in Awareness
NoVer == <<0, 0, 0, 0>>
Default == [name |-> <<>>, ver |-> NoVer, desc |-> <<>>, os |-> 0, level |-> 0, dpi |-> 0, on |-> {}]
\* An identity with no name is no identity
Kept(m) == IF m.name = <<>> THEN [m EXCEPT !.ver = NoVer] ELSE m

\* --- XML: names -------------------------------------------------------------------

V1 == Codes("urn:schemas-microsoft-com:asm.v1")
V3 == Codes("urn:schemas-microsoft-com:asm.v3")
CompatV1 == Codes("urn:schemas-microsoft-com:compatibility.v1")
YearNS(y) == Codes("http://schemas.microsoft.com/SMI/") \o Codes(y) \o Codes("/WindowsSettings")

SystemId(os) == CASE os = -1 -> Codes("{e2011457-1546-43c5-a5fe-008deee3d3f0}")
                  [] os = 0 -> Codes("{35138b9a-5d96-4fbd-8e2d-a2440225f93a}")
                  [] os = 1 -> Codes("{4a2f28e3-53b9-4441-ba9c-d69d4a4a6e38}")
                  [] os = 2 -> Codes("{1f676c76-80e1-4239-95bb-83d0f6d0da78}")
                  [] os = 3 -> Codes("{8e0f7a12-bfb3-4fe8-b9a5-48fd50a15a9a}")
SystemIds == [os \in Systems |-> SystemId(os)]

\* Features that are elements of windowsSettings: namespace, name and value
Element_(f) == CASE f = "auto-elevate" -> <<YearNS("2005"), Codes("autoElevate")>>
                 [] f = "disable-theming" -> <<YearNS("2005"), Codes("disableTheming")>>
                 [] f = "disable-window-filtering" -> <<YearNS("2011"), Codes("disableWindowFiltering")>>
                 [] f = "high-resolution-scrolling-aware" -> <<YearNS("2013"), Codes("highResolutionScrollingAware")>>
                 [] f = "ultra-high-resolution-scrolling-aware" -> <<YearNS("2013"), Codes("ultraHighResolutionScrollingAware")>>
                 [] f = "long-path-aware" -> <<YearNS("2016"), Codes("longPathAware")>>
                 [] f = "printer-driver-isolation" -> <<YearNS("2011"), Codes("printerDriverIsolation")>>
                 [] f = "gdi-scaling" -> <<YearNS("2017"), Codes("gdiScaling")>>
                 [] f = "segment-heap" -> <<YearNS("2020"), Codes("heapType")>>
Elements == [f \in Features \ {"ui-access", "use-common-controls-v6"} |-> Element_(f)]
True == Codes("true")
False_ == Codes("false")
Enabling(f) == IF f = "segment-heap" THEN Codes("segmentheap") ELSE True
DpiAwareAt == <<YearNS("2005"), Codes("dpiAware")>>
DpiAwarenessAt == <<YearNS("2016"), Codes("dpiAwareness")>>

Word(t) == Lower(Trim(t))

N_assemblyIdentity == Codes("assemblyIdentity")
P_Id == <<Codes("assemblyIdentity")>>
P_Description == <<Codes("description")>>
P_System == <<Codes("compatibility"), Codes("application"), Codes("supportedOS")>>
P_Settings == <<Codes("application"), Codes("windowsSettings")>>
P_Level == <<Codes("trustInfo"), Codes("security"), Codes("requestedPrivileges"), Codes("requestedExecutionLevel")>>
P_Controls == <<Codes("dependency"), Codes("dependentAssembly"), Codes("assemblyIdentity")>>
A_Name == Codes("name")
A_Version == Codes("version")
A_Id == Codes("Id")
A_Level == Codes("level")
A_UI == Codes("uiAccess")
A_Token == Codes("publicKeyToken")
A_Type == Codes("type")
A_Arch == Codes("processorArchitecture")
A_Language == Codes("language")
A_ManifestVersion == Codes("manifestVersion")
Assembly == Codes("assembly")
Win32 == Codes("win32")
OneDotZero == Codes("1.0")
Star == Codes("*")
ControlsName == Codes("microsoft.windows.common-controls")
ControlsToken == Codes("6595b64144ccf1df")
SixDot == Codes("6.")
TruePM == Codes("true/pm")
W_System == Codes("system")
W_Unaware == Codes("unaware")
W_PerMonitor == Codes("permonitor")
W_PerMonitorV2 == Codes("permonitorv2")
L_Invoker == Codes("asinvoker")
L_Highest == Codes("highestavailable")
L_Admin == Codes("requireadministrator")

\* --- XML: what a manifest must state (C21) ----------------------------------------------

\* The elements reached by names, all of them in the namespaces given
RECURSIVE InNS(_, _, _)
InNS(els, names, nss) ==
    IF names = <<>> THEN els
    ELSE InNS(SelectSeq(PathTo(els, <<Head(names)>>), LAMBDA e : e.ns = Head(nss)), Tail(names), Tail(nss))

IsControls(el) == /\ Word(Attr(el, A_Name)) = ControlsName /\ Is(Attr(el, A_Version), 1, SixDot)
                  /\ Word(Attr(el, A_Token)) = ControlsToken /\ Attr(el, A_Type) = Win32
                  /\ Attr(el, A_Arch) = Star /\ Attr(el, A_Language) = Star

DpiWords(t) == LET p == SplitBy(t, 44) IN [i \in 1..Len(p) |-> Word(p[i])]

\* What dpiAware and dpiAwareness state
States_dpi(aware, awareness, dpi) ==
    CASE dpi = 0 -> Word(aware) = True /\ DpiWords(awareness) = <<W_System>>
      [] dpi = 1 -> Word(aware) = False_ /\ DpiWords(awareness) = <<W_Unaware>>
      [] dpi = 2 -> Word(aware) = TruePM /\ DpiWords(awareness) = <<W_PerMonitor>>
      [] dpi = 3 -> Word(aware) = True /\ DpiWords(awareness) = <<W_PerMonitorV2, W_System>>
      [] OTHER -> FALSE

LevelWord(l) == IF l = 0 THEN L_Invoker ELSE IF l = 1 THEN L_Highest ELSE L_Admin

States(root, m) ==
    LET id == InNS(<<root>>, P_Id, <<V1>>)
        desc == InNS(<<root>>, P_Description, <<V1>>)
        systems == InNS(<<root>>, P_System, <<CompatV1, CompatV1, CompatV1>>)
        parents == InNS(<<root>>, P_Settings, <<V3, V3>>)
        level == InNS(<<root>>, P_Level, <<V3, V3, V3, V3>>)
        controls == InNS(<<root>>, P_Controls, <<V1, V1, V1>>)
        settings == parents[1].kids
        named(at) == SelectSeq(settings, LAMBDA e : <<e.ns, e.name>> = at)
    IN  /\ root.name = Assembly /\ root.ns = V1 /\ Attr(root, A_ManifestVersion) = OneDotZero
        \* identity and description
        /\ IF m.name = <<>> THEN id = <<>>
           ELSE /\ Len(id) = 1
                /\ Attr(id[1], A_Name) = m.name /\ Attr(id[1], A_Version) = Dotted(m.ver) /\ Attr(id[1], A_Type) = Win32
        /\ IF m.desc = <<>> THEN desc = <<>> ELSE Len(desc) = 1 /\ desc[1].text = m.desc
        \* systems
        /\ {Lower(Attr(systems[i], A_Id)) : i \in 1..Len(systems)} = {SystemIds[os] : os \in {x \in Systems : x >= m.os}}
        /\ Len(systems) = Cardinality({x \in Systems : x >= m.os})
        \* settings
        /\ Len(parents) = 1
        /\ Len(named(DpiAwareAt)) = 1 /\ Len(named(DpiAwarenessAt)) = 1
        /\ States_dpi(named(DpiAwareAt)[1].text, named(DpiAwarenessAt)[1].text, m.dpi)
        /\ \A f \in DOMAIN Elements :
              LET at == named(Elements[f]) IN
              /\ Len(at) <= 1
              /\ f \in m.on => Len(at) = 1
              /\ Len(at) = 1 => (f \in m.on) = (Word(at[1].text) = Enabling(f))
        /\ \A i \in 1..Len(settings) :
              <<settings[i].ns, settings[i].name>> \in {Elements[f] : f \in DOMAIN Elements} \cup {DpiAwareAt, DpiAwarenessAt}
        \* privileges
        /\ Len(level) = 1
        /\ Word(Attr(level[1], A_Level)) = LevelWord(m.level)
        /\ Word(Attr(level[1], A_UI)) = IF "ui-access" \in m.on THEN True ELSE False_
        \* dependencies
        /\ IF "use-common-controls-v6" \in m.on THEN Len(controls) = 1 /\ IsControls(controls[1]) ELSE controls = <<>>

\* --- XML: what a manifest reads as (C21) ---------------------------------------------------

RECURSIVE FirstAwareness(_)
FirstAwareness(ws) == IF ws = <<>> THEN -1
                      ELSE IF Head(ws) = W_System THEN 0 ELSE IF Head(ws) = W_Unaware THEN 1
                      ELSE IF Head(ws) = W_PerMonitor THEN 2 ELSE IF Head(ws) = W_PerMonitorV2 THEN 3
                      ELSE FirstAwareness(Tail(ws))

ReadDpi(aware, awareness) ==
    LET a == FirstAwareness(DpiWords(awareness)) IN
    IF a >= 0 THEN a ELSE IF Word(aware) = True THEN 0 ELSE IF Word(aware) = TruePM THEN 2 ELSE 1

Lowest(S) == CHOOSE x \in S : \A y \in S : x <= y

Reading(root) ==
    LET id == PathTo(<<root>>, P_Id)
        desc == PathTo(<<root>>, P_Description)
        ids == LET s == PathTo(<<root>>, P_System) IN {Word(Attr(s[i], A_Id)) : i \in 1..Len(s)}
        systems == {os \in Systems : SystemIds[os] \in ids}
        settings == LET RECURSIVE All(_)
                        All(s) == IF s = <<>> THEN <<>> ELSE Head(s).kids \o All(Tail(s))
                    IN  All(PathTo(<<root>>, P_Settings))
        text(name) == LET s == SelectSeq(settings, LAMBDA e : e.name = name) IN IF s = <<>> THEN <<>> ELSE s[1].text
        level == PathTo(<<root>>, P_Level)
        word(name) == IF level = <<>> THEN <<>> ELSE Word(Attr(level[1], name))
        deps == PathTo(<<root>>, P_Controls)
        controls(el) == /\ Word(Attr(el, A_Name)) = ControlsName /\ Is(Word(Attr(el, A_Version)), 1, SixDot)
                        /\ Word(Attr(el, A_Token)) = ControlsToken
    IN  [name |-> IF id = <<>> THEN <<>> ELSE Attr(id[1], A_Name),
         ver |-> IF id = <<>> THEN NoVer ELSE IF Attr(id[1], A_Version) = <<>> THEN NoVer ELSE Undotted(Attr(id[1], A_Version)),
         desc |-> IF desc = <<>> THEN <<>> ELSE desc[1].text,
         os |-> IF systems # {} THEN Lowest(systems) ELSE IF ids = {} THEN 0 ELSE 3,
         level |-> IF word(A_Level) = L_Highest THEN 1 ELSE IF word(A_Level) = L_Admin THEN 2 ELSE 0,
         dpi |-> ReadDpi(text(DpiAwareAt[2]), text(DpiAwarenessAt[2])),
         on |-> {f \in DOMAIN Elements : Word(text(Elements[f][2])) = Enabling(f)}
                \cup (IF word(A_UI) = True THEN {"ui-access"} ELSE {})
                \cup (IF \E i \in 1..Len(deps) : controls(deps[i]) THEN {"use-common-controls-v6"} ELSE {})]

\* --- JSON (C22) -------------------------------------------------------------------------------

SystemWords == [os \in Systems |-> CASE os = -1 -> "vista" [] os = 0 -> "win7" [] os = 1 -> "win8" [] os = 2 -> "win8.1" [] os = 3 -> "win10"]
LevelSpellings == [l \in Levels |-> CASE l = 0 -> {"", "as invoker", "asinvoker"}
                                      [] l = 1 -> {"highest", "highest available", "highestavailable"}
                                      [] l = 2 -> {"administrator", "require administrator", "requireadministrator"}]
DpiSpellings == [d \in Awareness |-> CASE d = 0 -> {"system", "true", ""}
                                       [] d = 1 -> {"unaware", "false"}
                                       [] d = 2 -> {"per monitor", "permonitor", "true/pm"}
                                       [] d = 3 -> {"per monitor v2", "permonitorv2"}]

LevelCodes == [l \in Levels |-> {Codes(s) : s \in LevelSpellings[l]}]
DpiCodes == [d \in Awareness |-> {Codes(s) : s \in DpiSpellings[d]}]
SystemCodes == [os \in Systems |-> {Codes(SystemWords[os])}]
\* The value of domain D that text t spells, as a set
Spelled(t, codes) == {x \in DOMAIN codes : Word(t) \in codes[x]}

\* f: the fields of a JSON form, texts being sequences of code points. on: the features that are true.
Decodes(f) == /\ "os" \in DOMAIN f => Spelled(f.os, SystemCodes) # {}
              /\ "level" \in DOMAIN f => Spelled(f.level, LevelCodes) # {}
              /\ "dpi" \in DOMAIN f => Spelled(f.dpi, DpiCodes) # {}
              /\ "ver" \in DOMAIN f => Trim(f.ver) = <<>> \/ Undotted(Trim(f.ver)) # NoVersion
One(S) == CHOOSE x \in S : TRUE
Decoded(f) == [name |-> IF "name" \in DOMAIN f THEN f.name ELSE <<>>,
               ver |-> IF "ver" \notin DOMAIN f THEN NoVer ELSE IF Trim(f.ver) = <<>> THEN NoVer ELSE Undotted(Trim(f.ver)),
               desc |-> IF "desc" \in DOMAIN f THEN f.desc ELSE <<>>,
               os |-> IF "os" \in DOMAIN f THEN One(Spelled(f.os, SystemCodes)) ELSE 0,
               level |-> IF "level" \in DOMAIN f THEN One(Spelled(f.level, LevelCodes)) ELSE 0,
               dpi |-> IF "dpi" \in DOMAIN f THEN One(Spelled(f.dpi, DpiCodes)) ELSE 0,
               on |-> {f.on[i] : i \in 1..Len(f.on)}]

\* doc is the JSON form of m (texts being strings here: name and desc are those of m)
DocOf(doc, m, name, desc, ver) ==
    /\ {"identity", "description", "minimum-os", "execution-level", "dpi-awareness"} \cup Features \subseteq DOMAIN doc
    /\ m.name # <<>> => /\ {"name", "version"} \subseteq DOMAIN doc["identity"]
                        /\ doc["identity"]["name"] = name /\ doc["identity"]["version"] = ver
    /\ doc["description"] = desc
    /\ doc["minimum-os"] = SystemWords[m.os]
    /\ doc["execution-level"] \in LevelSpellings[m.level]
    /\ doc["dpi-awareness"] \in DpiSpellings[m.dpi]
    /\ \A f \in Features : doc[f] = (f \in m.on)
=============================================================================
