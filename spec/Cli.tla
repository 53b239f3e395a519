-------------------------------- MODULE Cli --------------------------------
(***************************************************************************)
(* One run of the tool on what it is given: options, path patterns and     *)
(* files in any condition. The state machine takes the work in any order   *)
(* and stops at the first thing it cannot use; what a user may rely on is  *)
(* in the invariants: a fault anywhere means failure, naming a fault that  *)
(* is there, and no verdict; without a fault there is a verdict.           *)
(*                                                                         *)
(* A scenario is [cmd, same, sides]; a side is [form, files]: form is how  *)
(* its path is given, files the conditions of the files the path matches.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Fine == {"clean", "dirty", "empty"}
Unopenable == {"dangling", "loop", "socket", "locked"}
Unreadable == {"dir", "ioerror"}
Unparsable == {"broken", "torn"}
Conditions == Fine \union Unopenable \union Unreadable \union Unparsable

(* how a path is given *)
Usable == {"pattern", "plain", "stdin"}
OptionFaults == {"absent", "novalue", "emptyvalue"}
PatternFaults == {"nomatch", "badpattern"}

Fault(what, side, file) == [what |-> what, side |-> side, file |-> file]

FaultsOf(sc) ==
  (IF sc.same THEN {Fault("same", 1, 0)} ELSE {})
  \union {Fault(sc.sides[s].form, s, 0) : s \in {t \in DOMAIN sc.sides : sc.sides[t].form \notin Usable}}
  \union UNION {{Fault(sc.sides[s].files[i], s, i) : i \in {j \in DOMAIN sc.sides[s].files : sc.sides[s].files[j] \notin Fine}} : s \in DOMAIN sc.sides}

(* What a run may come to                                                  *)
Failure(f) == [verdict |-> FALSE, ok |-> FALSE, cites |-> f]
Success == [verdict |-> TRUE, ok |-> TRUE, cites |-> Fault("", 0, 0)]
Outcomes(sc) == IF FaultsOf(sc) = {} THEN {Success} ELSE {Failure(f) : f \in FaultsOf(sc)}

-----------------------------------------------------------------------------
VARIABLES sc,       \* the scenario
          phase,    \* "options", "files", "done"
          todo,     \* files still to be opened, read, parsed: <<step, side, file>>
          res       \* the outcome so far
vars == <<sc, phase, todo, res>>

Work(s) == UNION {{<<"open", t, i>> : i \in DOMAIN s.sides[t].files} : t \in DOMAIN s.sides}

InitIn(scenarios) == sc \in scenarios /\ phase = "options" /\ todo = Work(sc) /\ res = [verdict |-> FALSE, ok |-> FALSE, cites |-> Fault("none yet", 0, 0)]

Fail(f) == phase' = "done" /\ res' = Failure(f) /\ UNCHANGED <<sc, todo>>

(* options and patterns *)
BadOption == phase = "options" /\ \E s \in DOMAIN sc.sides : sc.sides[s].form \in OptionFaults \union PatternFaults /\ Fail(Fault(sc.sides[s].form, s, 0))
SamePath == phase = "options" /\ sc.same /\ Fail(Fault("same", 1, 0))
OptionsFine == phase = "options" /\ ~sc.same /\ (\A s \in DOMAIN sc.sides : sc.sides[s].form \in Usable) /\ phase' = "files" /\ UNCHANGED <<sc, todo, res>>
(* a pattern may also turn out unusable, or a file be used, before the other option is looked at *)
Early == phase = "options" /\ ~sc.same /\ Len(sc.sides) = 2 /\ (\E s \in DOMAIN sc.sides : sc.sides[s].form \in Usable) /\ (\A s \in DOMAIN sc.sides : sc.sides[s].form \notin OptionFaults)
         /\ \E w \in todo : sc.sides[w[2]].files[w[3]] \notin Fine /\ Fail(Fault(sc.sides[w[2]].files[w[3]], w[2], w[3]))

Cond(w) == sc.sides[w[2]].files[w[3]]
Next3(step) == CASE step = "open" -> "read" [] step = "read" -> "parse"
Blocks(step) == CASE step = "open" -> Unopenable [] step = "read" -> Unreadable [] step = "parse" -> Unparsable
Step(w) ==
  /\ phase = "files" /\ w \in todo
  /\ IF Cond(w) \in Blocks(w[1]) THEN Fail(Fault(Cond(w), w[2], w[3]))
     ELSE /\ todo' = (todo \ {w}) \union (IF w[1] = "parse" THEN {} ELSE {<<Next3(w[1]), w[2], w[3]>>})
          /\ UNCHANGED <<sc, phase, res>>
Conclude == phase = "files" /\ todo = {} /\ phase' = "done" /\ res' = Success /\ UNCHANGED <<sc, todo>>

Next == BadOption \/ SamePath \/ OptionsFine \/ Early \/ Conclude \/ \E w \in todo : Step(w)

(* What a user relies on                                                   *)
NoFalseVerdict == res.verdict => FaultsOf(sc) = {} /\ phase = "done"
FailsForAReason == phase = "done" /\ ~res.ok => res.cites \in FaultsOf(sc)
OneBadFileIsEnough == phase = "done" /\ FaultsOf(sc) # {} => ~res.ok /\ ~res.verdict
GoodInputIsJudged == phase = "done" /\ FaultsOf(sc) = {} => res = Success
EndsAsSpecified == phase = "done" => res \in Outcomes(sc)
=============================================================================
