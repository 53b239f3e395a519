------------------------------- MODULE MC_Cli -------------------------------
(* All scenarios up to FILES files in total; each is handed to the real    *)
(* tool as a case.                                                         *)
EXTENDS Cli, Notes, IOUtils
FILES == IF IOEnv.FILES = "4" THEN 4 ELSE IF IOEnv.FILES = "3" THEN 3 ELSE 2

Lists(n) == UNION {[1..k -> Conditions] : k \in 1..n}
Sides(n) == {[form |-> "pattern", files |-> f] : f \in Lists(n)} \union {[form |-> "plain", files |-> f] : f \in Lists(1)}
Faulty == {[form |-> f, files |-> <<>>] : f \in OptionFaults \union PatternFaults}
Scenario(cmd, same, sides) == [cmd |-> cmd, same |-> same, sides |-> sides]

OtherLintScenarios ==
  {Scenario("lint", FALSE, <<s>>) : s \in {x \in Faulty : x.form # "absent"}}
  \union {Scenario("lint", FALSE, <<[form |-> "stdin", files |-> <<c>>]>>) : c \in Conditions \ {"loop", "dangling", "socket", "locked"}}
OtherCompareScenarios ==
  {Scenario("compare", FALSE, <<a, b>>) : a \in Sides(1) \union Faulty, b \in Faulty}
  \union {Scenario("compare", FALSE, <<a, b>>) : a \in Faulty, b \in Sides(1)}
  \union {Scenario("compare", TRUE, <<a, a>>) : a \in Sides(2) \union {x \in Faulty : x.form \in PatternFaults}}

Init == \/ \E f \in Conditions : InitIn({Scenario("lint", FALSE, <<[form |-> "plain", files |-> <<f>>]>>)})
        \/ \E k \in 1..(IF FILES > 3 THEN 4 ELSE 3) : \E f \in [1..k -> Conditions] : InitIn({Scenario("lint", FALSE, <<[form |-> "pattern", files |-> f]>>)})
        \/ InitIn(OtherLintScenarios)
        \/ \E i \in 1..(FILES - 1) : \E j \in 1..(FILES - i) : \E f \in [1..i -> Conditions], g \in [1..j -> Conditions] :
             \E p \in (IF i = 1 THEN Usable \ {"stdin"} ELSE {"pattern"}), q \in (IF j = 1 THEN Usable \ {"stdin"} ELSE {"pattern"}) :
                InitIn({Scenario("compare", FALSE, <<[form |-> p, files |-> f], [form |-> q, files |-> g]>>)})
        \/ InitIn(OtherCompareScenarios)
Stutter == phase = "done" /\ UNCHANGED vars
Spec == Init /\ [][Next \/ Stutter]_vars /\ WF_vars(Next)
Terminates == <>(phase = "done")

OnlyScenarios == phase = "none"
Case == phase = "options" => Note("CASE", sc)
=============================================================================
