------------------------------ MODULE LintCli ------------------------------
(***************************************************************************)
(* `gql lint` as a whole: which rules are applied, what is printed for     *)
(* which file, and how it ends.                                            *)
(*                                                                         *)
(* A file is [name, text, doc]: text is a sequence of code points, doc the *)
(* document it parses to. A selection is the sequence of values given to   *)
(* the rules option, each a sequence of code points.                       *)
(***************************************************************************)
EXTENDS LintRules, LintScan, CliText

(* Rule names as the option takes them: comma separated values             *)
RECURSIVE CommaSeq(_, _, _)
CommaSeq(v, i, cur) == IF i > Len(v) THEN <<cur>>
                       ELSE IF v[i] = COMMA THEN <<cur>> \o CommaSeq(v, i + 1, <<>>)
                       ELSE CommaSeq(v, i + 1, Append(cur, v[i]))
Wanted(sel) == FlatMap(sel, LAMBDA v : IF v = <<>> THEN <<>> ELSE MapSeq(CommaSeq(v, 1, <<>>), LAMBDA w : FoldCase(Trim(w))))

AllRules == {RULES[i] : i \in DOMAIN RULES}
Known(w) == \E r \in AllRules : CP(r) = w
Unknown(sel) == SelectSeq(Wanted(sel), LAMBDA w : ~Known(w))
Selected(sel) == LET names == {x : x \in ToSet(Wanted(sel))} IN
                 IF names = {} THEN RULES ELSE SelectSeq(RULES, LAMBDA r : CP(r) \in names)

(* What has to be printed for a file                                       *)
Left(f, sel) == Kept(Configs(f.text), Reports(Selected(sel), f.doc))
Row(f, x) == [f |-> f.name, l |-> x.l, c |-> x.c,
              line |-> f.name \o ":" \o ToString(x.l) \o ":" \o ToString(x.c) \o " " \o x.msg]
Rows(files, sel) == FlatMap(files, LAMBDA f : MapSeq(Left(f, sel), LAMBDA x : Row(f, x)))
=============================================================================
