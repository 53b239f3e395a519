---------------------------- MODULE MC_LintFiles ----------------------------
(***************************************************************************)
(* `gql lint` over several files: a machine that takes the files in any    *)
(* order, presents what is left of each and keeps a count. Whatever the    *)
(* order, it ends with the verdict on all of them: every file presented    *)
(* once, the count that of all errors, and status 1 iff there are any.     *)
(* Every choice of files is a case for the real command.                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Notes, IOUtils

FILES == IF IOEnv.FILES = "4" THEN 4 ELSE IF IOEnv.FILES = "3" THEN 3 ELSE 2

(* what can be in a file: how many errors it has, per rule, and how many   *)
(* of them inline comments take away                                       *)
CONTENTS == {"clean", "empty", "comment", "desc", "two", "caps", "hidden", "half", "other", "many"}
Has(c, r) == CASE c = "desc" -> IF r = "type-desc" THEN 1 ELSE 0
               [] c = "caps" -> IF r = "type-caps" THEN 1 ELSE 0
               [] c \in {"two", "half"} -> 1
               [] c = "hidden" -> IF r = "type-desc" THEN 2 ELSE 0
               [] c = "other" -> IF r = "type-desc" THEN 1 ELSE 0       \* a comment for another rule
               [] c = "many" -> IF r = "type-desc" THEN 12 ELSE 0
               [] OTHER -> 0
Hidden(c, r) == CASE c = "hidden" -> Has(c, r) [] c = "half" /\ r = "type-desc" -> 1 [] OTHER -> 0
Rules == {"type-desc", "type-caps"}
SELECTIONS == {Rules, {"type-desc"}, {"type-caps"}}
RECURSIVE Total(_, _)
Total(S, f) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN f[x] + Total(S \ {x}, f)
LeftOf(c, rs) == Total(rs, [r \in rs |-> Has(c, r) - Hidden(c, r)])

VARIABLES files, sel, todo, last, shown, count, status, verdict
vars == <<files, sel, todo, last, shown, count, status, verdict>>
Init == /\ \E k \in 1..FILES : files \in [1..k -> CONTENTS]
        /\ sel \in SELECTIONS /\ todo = DOMAIN files /\ last = 0 /\ shown = [i \in DOMAIN files |-> 0] /\ count = 0 /\ status = 0 /\ verdict = "none"
Visit(i) ==
  /\ i \in todo
  /\ todo' = todo \ {i} /\ last' = i
  /\ LET left == LeftOf(files[i], sel) IN
       /\ shown' = [shown EXCEPT ![i] = @ + left]
       /\ count' = count + left
       /\ status' = IF left > 0 THEN 1 ELSE status
  /\ UNCHANGED <<files, sel, verdict>>
Conclude == /\ todo = {} /\ verdict = "none"
            /\ verdict' = IF count = 0 THEN "clean" ELSE "errors"
            /\ UNCHANGED <<files, sel, todo, last, shown, count, status>>
Next == Conclude \/ \E i \in todo : Visit(i)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Sum(f) == Total(DOMAIN f, f)
CountIsOfWhatIsShown == count = Sum(shown)
AllErrors == Sum([i \in DOMAIN files |-> LeftOf(files[i], sel)])
Done == verdict # "none"
EachFileOnce == Done => \A i \in DOMAIN files : shown[i] = LeftOf(files[i], sel)
VerdictIsOnAll == Done => count = AllErrors /\ (status = 1 <=> AllErrors > 0) /\ (verdict = "clean" <=> AllErrors = 0)
StatusOnlyRises == [][status' >= status]_vars
Ends == <>Done
Case == last = 0 /\ verdict = "none" => Note("CASE", [id |-> "files", files |-> files, sel |-> SetToSeq(sel), left |-> AllErrors])
=============================================================================
