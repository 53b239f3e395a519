------------------------------ MODULE MC_Types ------------------------------
(***************************************************************************)
(* Variance: for all pairs of type references the order used to grade type *)
(* changes is exactly inclusion of the sets of values. Every pair is a     *)
(* case for the real comparison, in all four places a type can stand.      *)
(***************************************************************************)
EXTENDS Docs, Notes, IOUtils
DEPTH == IF IOEnv.DEPTH = "3" THEN 3 ELSE IF IOEnv.DEPTH = "2" THEN 2 ELSE 1
(* few names, deep; or many names, built in, user's, near each other, flat *)
NAMES == IF DEPTH > 1 THEN {"A", "Int"} ELSE {"Int", "Float", "String", "ID", "Boolean", "A", "a", "AB", "O", "I", "N", "B"}

(* five and six lists deep, alike in what may be null but for one level    *)
RECURSIVE Nested(_)
Nested(nulls) == LET t == IF Len(nulls) = 1 THEN T("Int") ELSE Ls(Nested(Tail(nulls))) IN IF Head(nulls) THEN t ELSE Nn(t)
DEEP == {Nested([i \in 1..k |-> IF i = at THEN ~most ELSE most]) : k \in {6, 7}, at \in 0..7, most \in BOOLEAN}
ALL == IF IOEnv.DEPTH = "deep" THEN DEEP ELSE Refs(NAMES, DEPTH)

VARIABLES o, n
Init == o \in ALL /\ n \in ALL
Spec == Init /\ [][UNCHANGED <<o, n>>]_<<o, n>>

VarianceIsInclusion == Covariant(o, n) <=> Members(n) \subseteq Members(o)
OutputIsReverseOfInput == OutputSafe(o, n) <=> InputSafe(n, o)
BothWaysOnlyIfEqual == (OutputSafe(o, n) /\ InputSafe(o, n)) <=> o = n
TextTellsTypesApart == TypeStr(o) = TypeStr(n) <=> o = n

(* the pair in some places, or everywhere, next to a field that stays *)
Shape(t, out, arg, input, dir) == LET At(place, x) == IF place THEN x ELSE T("Int") IN [Doc0 EXCEPT
  !.defs = << [Def("OBJECT", "O") EXCEPT !.fields = << [Fld("f", At(out, t)) EXCEPT !.args = <<Arg("x", T("Int"), NIL)>>],
                                                       [Fld("g", T("Int")) EXCEPT !.args = <<Arg("x", At(arg, t), NIL), Arg("y", T("Int"), NIL)>>] >>],
              [Def("INTERFACE", "I") EXCEPT !.fields = << Fld("f", At(out, t)) >>],
              [Def("INPUT_OBJECT", "N") EXCEPT !.fields = << Fld("f", At(input, t)), Fld("g", T("Int")) >>] >>,
  !.exts = << [Def("OBJECT", "E") EXCEPT !.fields = << Fld("f", At(out, t)) >>] >>,
  !.dirs = << DirDef("d", <<Arg("x", At(dir, t), NIL)>>, <<"FIELD">>) >>]
Emit(out, arg, input, dir) ==
  Note("CASE", [id |-> "type:" \o TypeStr(o) \o ">" \o TypeStr(n), kind |-> "pair", old |-> Shape(o, out, arg, input, dir), new |-> Shape(n, out, arg, input, dir), edits |-> <<>>])
Case == o # n => IF IOEnv.PLACES = "all" THEN Emit(TRUE, TRUE, TRUE, TRUE)
                 ELSE Emit(TRUE, FALSE, FALSE, FALSE) /\ Emit(FALSE, TRUE, FALSE, FALSE) /\ Emit(FALSE, FALSE, TRUE, FALSE) /\ Emit(FALSE, FALSE, FALSE, TRUE)
=============================================================================
