------------------------------ MODULE CliText ------------------------------
(* What the command line prints, line by line.                             *)
EXTENDS Integers, Sequences

Lead(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
Within(s, x) == \E i \in 1..(Len(s) - Len(x) + 1) : SubSeq(s, i, i + Len(x) - 1) = x

NO_LINT_ERRORS == "Schema has no lint errors!"
LINT_ERRORS == "Total lint errors found: "
NO_CHANGES == "No changes found on schema compare!"
NO_BREAKING == "No breaking changes found"
BREAKING == "Breaking changes in schema: "

(* Does a line give a verdict on the whole input? *)
IsVerdict(line) == \E v \in {NO_LINT_ERRORS, LINT_ERRORS, NO_CHANGES, NO_BREAKING, BREAKING} : Within(line, v)
(* ... and one that lets the input pass? *)
IsClean(line) == \E v \in {NO_LINT_ERRORS, NO_CHANGES, NO_BREAKING} : Within(line, v)

Ends(s, x) == Len(s) >= Len(x) /\ SubSeq(s, Len(s) - Len(x) + 1, Len(s)) = x
=============================================================================
