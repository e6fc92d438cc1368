------------------------------ MODULE ApiGraph ------------------------------
(***************************************************************************)
(* What can be called on what: every function that reads external data,    *)
(* and everything that can be done with the values they return (C23).      *)
(*                                                                         *)
(* A value has a kind. An operation needs values of some kinds, and may    *)
(* give one. A path starts with bytes of a kind that came from outside,    *)
(* and is a sequence of operations where each needs what the previous one  *)
(* gave, or what it needed.                                                *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxPath

\* Kinds of bytes: an executable, an ICO file, a CUR file, version information (binary, JSON), a manifest (XML, JSON).
\* "grp" is a resource set that holds such data.
Outside == {"exe", "ico", "cur", "vb", "vj", "mx", "mj", "grp"}
Values == {"set", "icon", "cursor", "ver", "man"}

Op(n, needs, gives) == [name |-> n, needs |-> needs, gives |-> gives]
Ops == {
  \* functions that read bytes
  Op("LoadFromEXE", "exe", "set"), Op("LoadFromEXESingleType", "exe", "set"),
  Op("IsSignedEXE", "exe", "exe"), Op("WriteToEXE", "exe", "exe"),
  Op("LoadICO", "ico", "icon"), Op("LoadCUR", "cur", "cursor"),
  Op("FromBytes", "vb", "ver"), Op("UnmarshalVersion", "vj", "ver"),
  Op("AppManifestFromXML", "mx", "man"), Op("UnmarshalManifest", "mj", "man"),
  \* a set that holds them
  Op("Reset", "grp", "set"), Op("Count", "set", "set"), Op("Walk", "set", "set"), Op("WalkType", "set", "set"), Op("Get", "set", "set"),
  Op("Edit", "set", "set"), Op("GetIcon", "set", "icon"), Op("GetCursor", "set", "cursor"),
  Op("ReadVersion", "set", "vb"), Op("ReadManifest", "set", "mx"),
  Op("WriteObject", "set", "set"), Op("Patch", "set", "exe"),
  \* values
  Op("SaveICO", "icon", "ico"), Op("SetIcon", "icon", "set"),
  Op("SaveCUR", "cursor", "cur"), Op("SetCursor", "cursor", "set"),
  Op("Bytes", "ver", "vb"), Op("MarshalVersion", "ver", "vj"), Op("Table", "ver", "ver"), Op("Split", "ver", "ver"),
  Op("Merge", "ver", "ver"), Op("SetString", "ver", "ver"), Op("SetVersions", "ver", "ver"), Op("SetVersionInfo", "ver", "set"),
  Op("MarshalManifest", "man", "mj"), Op("SetManifest", "man", "set") }

VARIABLES start, path, kind, has
vars == <<start, path, kind, has>>

Init == /\ start \in Outside /\ path = <<>> /\ kind = start /\ has = {start}
Step(o) == /\ Len(path) < MaxPath
           /\ o.needs = kind
           \* no operation twice in a path: it would give the same thing again
           /\ \A i \in 1..Len(path) : path[i] # o.name
           /\ path' = Append(path, o.name)
           /\ kind' = o.gives
           /\ has' = has \union {o.gives}
           /\ UNCHANGED start
Next == \E o \in Ops : Step(o)
Spec == Init /\ [][Next]_vars

\* Every operation can follow from bytes that come from outside
Reach == [k \in Outside \union Values |-> {o.gives : o \in {o \in Ops : o.needs = k}}]
RECURSIVE Closure(_)
Closure(s) == LET t == s \union UNION {Reach[k] : k \in s} IN IF t = s THEN s ELSE Closure(t)
ASSUME \A o \in Ops : o.needs \in Closure(Outside)
ASSUME \A k \in Outside \ {"grp"} : \E v \in Values : v \in Closure({k})

TypeOK == kind \in Outside \union Values /\ kind \in has
\* What is done with a value never needs anything that was not returned before
Fed == \A i \in 1..Len(path) : \E o \in Ops : o.name = path[i] /\ o.needs \in has

PrintCase == (Len(path) = MaxPath \/ ~ENABLED Next) => PrintT(<<"CASE", ToJson([start |-> start, path |-> path])>>)
=============================================================================
