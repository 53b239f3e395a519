----------------------------- MODULE LintOrder -----------------------------
(* Lists of lint errors [rule, l, c, msg] *)
EXTENDS Integers, Sequences, FiniteSets
Mult(s, x) == Cardinality({i \in DOMAIN s : s[i] = x})
View4(e) == <<e.rule, e.l, e.c, e.msg>>
SameErrors(a, b) ==
  LET s == [i \in DOMAIN a |-> View4(a[i])]  t == [i \in DOMAIN b |-> View4(b[i])] IN
  Len(s) = Len(t) /\ \A i \in DOMAIN s : Mult(s, s[i]) = Mult(t, s[i])
Ascending(errs) == \A i \in 1..(Len(errs) - 1) :
  errs[i].l < errs[i+1].l \/ (errs[i].l = errs[i+1].l /\ errs[i].c <= errs[i+1].c)
=============================================================================
