-------------------------- MODULE ResourceSetActions -------------------------
(***************************************************************************)
(* The actions of recorded sessions on resource sets, bound to ResourceSet.*)
(* A session is accepted if every one of its events is one of these steps; *)
(* TLC reports a deadlock at the first event that is not.                  *)
(*                                                                         *)
(* Props selects the properties that are judged: C01 (map), C02            *)
(* (enumeration), C05 (outputs are a function of the content).             *)
(***************************************************************************)
EXTENDS ResourceSet, TraceBase, SequencesExt

CONSTANT Props

VARIABLES
    sets,   \* set number |-> content
    memo    \* <<"object", arch, content>> or <<"exe", source, content>> |-> digest of the output

vars == <<sid, pos, sets, memo>>

Init == TraceInit /\ sets = <<>> /\ memo = EmptySet

\* (the comparison makes TLC evaluate the condition as a value, never as an action)
J(p, cond) == (p \in Props => cond) = TRUE

New == IsEvent("new") /\ sets' = [i \in 1..ev.n |-> EmptySet] /\ UNCHANGED memo

Set == /\ IsEvent("set")
       /\ J("C01", ev.err = SetFails(<<ev.t, ev.r, ev.l>>))
       /\ sets' = [sets EXCEPT ![ev.s] = AfterSet(@, <<ev.t, ev.r, ev.l>>, ev.nil, ev.d)]
       /\ UNCHANGED memo

\* Many calls of Set, none of which fails
Fill == /\ IsEvent("fill")
        /\ J("C01", ~ev.err) /\ J("C03", ~ev.err)
        /\ sets' = [sets EXCEPT ![ev.s] = FoldLeft(LAMBDA c, e : Put(c, KeyOf(e), e.d), @, ev.in)]
        /\ UNCHANGED memo

Get == /\ IsEvent("get")
       /\ J("C01", GetAnswers(sets[ev.s], <<ev.t, ev.r, ev.l>>, ev.nil, ev.d))
       /\ J("C07", GetAnswers(sets[ev.s], <<ev.t, ev.r, ev.l>>, ev.nil, ev.d))
       /\ J("C05", GetAnswers(sets[ev.s], <<ev.t, ev.r, ev.l>>, ev.nil, ev.d))
       /\ UNCHANGED <<sets, memo>>

Count == /\ IsEvent("count")
         /\ J("C01", CountAnswers(sets[ev.s], ev.n))
         /\ J("C07", CountAnswers(sets[ev.s], ev.n))
         /\ J("C05", CountAnswers(sets[ev.s], ev.n))
         /\ UNCHANGED <<sets, memo>>

Walk == /\ IsEvent("walk")
        /\ J("C02", WalkAnswers(sets[ev.s], ev.out, ev.stop))
        /\ J("C07", WalkAnswers(sets[ev.s], ev.out, ev.stop))
        /\ J("C05", WalkAnswers(sets[ev.s], ev.out, ev.stop))
        /\ UNCHANGED <<sets, memo>>

WalkType == /\ IsEvent("walktype")
            /\ J("C02", WalkTypeAnswers(sets[ev.s], ev.t, ev.out, ev.stop))
            /\ UNCHANGED <<sets, memo>>

\* The same output as any earlier one for the same content
Memoized(what) ==
    LET m == <<what, sets[ev.s]>>
    IN  IF m \in DOMAIN memo
        THEN J("C05", memo[m] = ev.d) /\ UNCHANGED memo
        ELSE memo' = (m :> ev.d) @@ memo

Object == /\ IsEvent("object")
          /\ J("C05", ~ev.err)
          /\ Memoized(<<"object", ev.arch>>)
          /\ UNCHANGED sets

Exe == /\ IsEvent("exe")
       /\ J("C05", ~ev.err)
       /\ Memoized(<<"exe", ev.src>>)
       /\ UNCHANGED sets

\* Embeds a set in an executable, and loads it back into another one
Reload == /\ IsEvent("reload")
          /\ J("C05", ~ev.werr /\ ~ev.lerr)
          /\ sets' = [sets EXCEPT ![ev.to] = sets[ev.s]]
          /\ UNCHANGED memo

RSNext == New \/ Set \/ Fill \/ Get \/ Count \/ Walk \/ WalkType \/ Object \/ Exe \/ Reload
=============================================================================
