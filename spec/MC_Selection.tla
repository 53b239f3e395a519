---------------------------- MODULE MC_Selection ----------------------------
(***************************************************************************)
(* Selecting rules: a user types names, in any letter case, padded or not, *)
(* separated by commas or in further options, once or again, with typing   *)
(* errors or without; or names any set of rules at once. The rules that    *)
(* are then applied are those typed, and a typing error is noticed. Every  *)
(* selection is a case for the real command.                               *)
(***************************************************************************)
EXTENDS LintCli, Notes, IOUtils, TLC

DEPTH == IF IOEnv.DEPTH = "3" THEN 3 ELSE 2
Upper(s) == [i \in DOMAIN s |-> IF s[i] \in 97..122 THEN s[i] - 32 ELSE s[i]]
Capital(s) == [i \in DOMAIN s |-> IF i = 1 THEN s[i] - 32 ELSE s[i]]
Forms(s) == {<<s, TRUE>>, <<Upper(s), TRUE>>, <<<<SP, SP>> \o Capital(s) \o <<TAB>>, TRUE>>}
Slips(s) == {<<SubSeq(s, 1, Len(s) - 1), FALSE>>, <<Append(s, 115), FALSE>>, <<SubSeq(s, 1, 5) \o <<SP>> \o SubSeq(s, 6, Len(s)), FALSE>>}

VARIABLES sel, typed, wrong, n
vars == <<sel, typed, wrong, n>>
RECURSIVE Listed(_)
Listed(rs) == IF rs = <<>> THEN <<>> ELSE IF Len(rs) = 1 THEN CP(rs[1]) ELSE CP(rs[1]) \o <<COMMA>> \o Listed(Tail(rs))
Init == \E S \in SUBSET AllRules :
  /\ n = IF S = {} THEN 0 ELSE DEPTH
  /\ wrong = FALSE /\ typed = S
  /\ sel \in (IF S = {} THEN {<<>>} ELSE {<<Listed(SelectSeq(RULES, LAMBDA r : r \in S))>>, <<Listed(Reverse(SelectSeq(RULES, LAMBDA r : r \in S)))>>})
Type(r, form, fresh) ==
  /\ n < DEPTH
  /\ sel' = IF fresh \/ sel = <<>> THEN Append(sel, form[1]) ELSE [sel EXCEPT ![Len(sel)] = @ \o <<COMMA>> \o form[1]]
  /\ typed' = IF form[2] THEN typed \union {r} ELSE typed
  /\ wrong' = (wrong \/ ~form[2])
  /\ n' = n + 1
Next == \E r \in AllRules, fresh \in BOOLEAN : \E form \in Forms(CP(r)) \union Slips(CP(r)) : Type(r, form, fresh)
Spec == Init /\ [][Next]_vars

TypedIsSelected == ~wrong /\ typed # {} => \E s \in {Selected(sel)} : ToSet(s) = typed /\ Len(s) = Cardinality(typed)
SlipsAreNoticed == wrong <=> Unknown(sel) # <<>>
Case == Note("CASE", [id |-> "selection", sel |-> sel])
=============================================================================
