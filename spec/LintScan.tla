------------------------------ MODULE LintScan ------------------------------
(***************************************************************************)
(* Inline configuration: which comments of a text configure the linter and *)
(* which errors remain.                                                    *)
(***************************************************************************)
EXTENDS Lexer, FiniteSets

(* The rule names and command words, as code points *)
CP(rule) ==
  CASE rule = "type-desc" -> <<116,121,112,101,45,100,101,115,99>>
    [] rule = "args-desc" -> <<97,114,103,115,45,100,101,115,99>>
    [] rule = "field-desc" -> <<102,105,101,108,100,45,100,101,115,99>>
    [] rule = "enum-caps" -> <<101,110,117,109,45,99,97,112,115>>
    [] rule = "enum-desc" -> <<101,110,117,109,45,100,101,115,99>>
    [] rule = "field-camel" -> <<102,105,101,108,100,45,99,97,109,101,108>>
    [] rule = "type-caps" -> <<116,121,112,101,45,99,97,112,115>>
    [] rule = "relay-conn-type" -> <<114,101,108,97,121,45,99,111,110,110,45,116,121,112,101>>
    [] rule = "relay-conn-args" -> <<114,101,108,97,121,45,99,111,110,110,45,97,114,103,115>>
LINT == <<35,108,105,110,116,45>>                                  \* #lint-
DISABLE == <<100,105,115,97,98,108,101>>
ENABLE == <<101,110,97,98,108,101>>
LINE == <<45,108,105,110,101>>

(* Case folding, as far as it can lead to a letter of a rule name *)
Fold1(c) == CASE c \in 65..90 -> c + 32 [] c = 383 -> 115 [] c = 8490 -> 107 [] OTHER -> c
FoldCase(s) == [i \in DOMAIN s |-> Fold1(s[i])]

WHITE == (9..13) \union {32, 133, 160, 5760, 8232, 8233, 8239, 8287, 12288} \union (8192..8202)
RECURSIVE SkipBack(_, _)
SkipBack(s, i) == IF i >= 1 /\ s[i] \in WHITE THEN SkipBack(s, i - 1) ELSE i
Trim(s) == SubSeq(s, SkipIn(s, 1, WHITE), SkipBack(s, Len(s)))

RECURSIVE SplitComma(_, _, _)
SplitComma(v, i, cur) == IF i > Len(v) THEN {cur}
                         ELSE IF v[i] = COMMA THEN {cur} \union SplitComma(v, i + 1, <<>>)
                         ELSE SplitComma(v, i + 1, Append(cur, v[i]))

(* The command of a comment: the word after "#lint-", then the rule list.  *)
CmdOf(v) ==
  LET w == SkipOut(v, 7, {TAB, SP})
      word == SubSeq(v, 7, w - 1)
      cmd == CASE word = DISABLE -> "disable" [] word = ENABLE -> "enable" [] word = DISABLE \o LINE -> "line" [] OTHER -> "none"
  IN [cmd |-> cmd, rules |-> {FoldCase(Trim(x)) : x \in SplitComma(SubSeq(v, w, Len(v)), 1, <<>>)}]
IsConfig(v) == Len(v) > 6 /\ SubSeq(v, 1, 6) = LINT

(* In order of appearance: [cmd, rules, line]. (The first test only saves  *)
(* reading texts in which no comment can be meant.)                        *)
Configs(text) ==
  IF ~\E i \in 1..(Len(text) - 5) : text[i] = HASH /\ SubSeq(text, i, i + 5) = LINT THEN <<>> ELSE
  LET cs == SelectSeq(Comments(Tokens(text)), LAMBDA x : IsConfig(x.v))
      all == [i \in DOMAIN cs |-> [cmd |-> CmdOf(cs[i].v).cmd, rules |-> CmdOf(cs[i].v).rules, line |-> cs[i].l]]
  IN SelectSeq(all, LAMBDA x : x.cmd # "none")

(* The latest comment above the line that lists the rule decides, unless   *)
(* the line itself carries a disable-line comment for the rule.            *)
Suppressed(cs, rule, line) ==
  LET mine == {i \in DOMAIN cs : CP(rule) \in cs[i].rules}
      above == {i \in mine : cs[i].line < line /\ cs[i].cmd \in {"disable", "enable"}}
  IN \/ \E i \in mine : cs[i].cmd = "line" /\ cs[i].line = line
     \/ above # {} /\ cs[CHOOSE i \in above : \A j \in above : j <= i].cmd = "disable"

Kept(cs, errs) == SelectSeq(errs, LAMBDA e : ~Suppressed(cs, e.rule, e.l))
=============================================================================
