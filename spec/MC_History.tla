----------------------------- MODULE MC_History -----------------------------
(***************************************************************************)
(* Histories over all states of one small thing. That what is grave in one *)
(* go is grave in some step is checked for the specified comparison; each  *)
(* family of versions is a case for the real one.                          *)
(***************************************************************************)
EXTENDS Shapes, History, Notes, IOUtils, TLC

Types == {T("Int"), Nn(T("Int")), T("ID"), Ls(T("Int")), Nn(Ls(Nn(T("Int"))))}
Absent == [absent |-> TRUE]

(* an argument of a field, of a directive, and an input field: their type, *)
(* default, and whether what they are part of exists                       *)
Valued == {<<t, d>> : t \in Types, d \in {NIL, "1"}}
ArgDoc(a) == [Doc0 EXCEPT !.defs = <<Def("SCALAR", "Z"), [Def("OBJECT", "O") EXCEPT !.fields = <<Fld("f", Opt), [Fld("g", Opt) EXCEPT !.args = a]>>]>>]
ArgumentDocs ==
  {ArgDoc(<<Arg("x", v[1], v[2])>>) : v \in Valued} \union {ArgDoc(<<>>), ArgDoc(<<Arg("y", Opt, NIL)>>), ArgDoc(<<Arg("y", Opt, NIL), Arg("x", Req, NIL)>>)}
  \union {[Doc0 EXCEPT !.defs = <<Def("SCALAR", "Z")>>], [Doc0 EXCEPT !.defs = <<Def("SCALAR", "Z"), Def("SCALAR", "O")>>],
          [Doc0 EXCEPT !.defs = <<Def("SCALAR", "Z"), [Def("OBJECT", "O") EXCEPT !.fields = <<Fld("f", Opt)>>]>>]}

InFields(v) == IF v = <<>> THEN <<Fld("f", Opt)>> ELSE <<Fld("f", Opt), [Fld("x", v[1]) EXCEPT !.def = v[2]]>>
InDoc(def, ext) == [Doc0 EXCEPT !.defs = <<Def("SCALAR", "Z")>> \o def, !.exts = ext]
InPart(fs) == <<[Def("INPUT_OBJECT", "N") EXCEPT !.fields = fs]>>
InputDocs ==
  {InDoc(InPart(InFields(v)), <<>>) : v \in Valued \union {<<>>}}
  \union {InDoc(InPart(<<Fld("f", Opt)>>), InPart(<<[Fld("x", v[1]) EXCEPT !.def = v[2]]>>)) : v \in Valued}
  \union {InDoc(<<>>, InPart(<<Fld("x", t)>>)) : t \in {Opt, Req}}
  \union {InDoc(<<>>, <<>>), InDoc(<<Def("SCALAR", "N")>>, <<>>)}

DirDoc(a, l, r) == [Doc0 EXCEPT !.defs = <<Def("SCALAR", "Z")>>, !.dirs = <<[DirDef("d", a, l) EXCEPT !.rep = r]>>]
DirectiveDocs ==
  {DirDoc(<<Arg("x", v[1], v[2])>>, <<"FIELD">>, FALSE) : v \in Valued}
  \union {DirDoc(a, l, r) : a \in {<<>>, <<Arg("x", Opt, NIL)>>}, l \in {<<"FIELD">>, <<"OBJECT", "FIELD">>, <<"OBJECT">>}, r \in BOOLEAN}
  \union {[Doc0 EXCEPT !.defs = <<Def("SCALAR", "Z")>>]}

(* what a field produces, and the words about it *)
OutDoc(fs) == [Doc0 EXCEPT !.defs = <<[Def("OBJECT", "O") EXCEPT !.fields = <<Fld("f", Opt)>> \o fs], [Def("INTERFACE", "I") EXCEPT !.fields = <<Fld("f", Opt)>> \o fs]>>]
FieldDocs ==
  {OutDoc(<<Fld("x", t)>>) : t \in Refs({"A"}, 2) \union Refs({"Int"}, 1)}
  \union {OutDoc(<<>>), OutDoc(<<[Fld("x", Opt) EXCEPT !.dirs = <<App("deprecated", <<>>)>>]>>), OutDoc(<<[Fld("x", Opt) EXCEPT !.dirs = <<App("deprecated", <<AppArg("reason", "\"r\"")>>)>>]>>),
          [Doc0 EXCEPT !.defs = <<Def("SCALAR", "Z")>>]}

(* the values of an enum, some deprecated; members and interfaces alike *)
EnumStates == {"", "plain", "bare", "r", "s"}
EnumVal(n, s) == IF s = "" THEN <<>> ELSE << [Val(n) EXCEPT !.dirs = IF s = "plain" THEN <<>> ELSE <<App("deprecated", IF s = "bare" THEN <<>> ELSE <<AppArg("reason", "\"" \o s \o "\"")>>)>>] >>
EnumDoc(a, b) == [Doc0 EXCEPT !.defs = <<[Def("ENUM", "E") EXCEPT !.values = <<Val("Z")>> \o EnumVal("A", a) \o EnumVal("B", b)]>>]
EnumDocs == {EnumDoc(a, b) : a \in EnumStates, b \in {"", "plain", "r"}} \union {[Doc0 EXCEPT !.defs = <<Def("SCALAR", "E")>>]}

(* the sets of names of Shapes, but few of them *)
NameDocs == {Names(S) : S \in {S \in SUBSET {"a", "A", "aa", "b"} : Cardinality(S) <= 3}}
ValueDocs == {Values(v) : v \in {NIL, "1", "\"1\"", "null", "[1]", "RED", "{a:1}"}}
WordDocs == {Words([text |-> w, in |-> {p}]) : w \in {"", "w"}, p \in PLACES}
KindDocs == {Kinds([def |-> d, ext |-> e]) : d \in States, e \in {"", "open INPUT_OBJECT", "INPUT_OBJECT", "OBJECT", "ENUM"}}
AppDocs == {Apps(a) : a \in Lists({Mark(NIL), Mark("1"), Mark("2"), App("deprecated", <<>>)}, 2)}
RootDocs == {Roots(s) : s \in {x \in ROOTS : x.t \in {"none", "def", "ext"}}}

FAMILIES == [arguments |-> ArgumentDocs, inputs |-> InputDocs, directives |-> DirectiveDocs, fields |-> FieldDocs, enums |-> EnumDocs,
             names |-> NameDocs, values |-> ValueDocs, words |-> WordDocs, kinds |-> KindDocs, applications |-> AppDocs, roots |-> RootDocs]

VARIABLE family
Init == family = ""
Spec == Init /\ [][family = "" /\ family' \in DOMAIN FAMILIES]_family

Versions == SetToSeq(FAMILIES[family])
AllPairs(vs) == TLCEval([i \in DOMAIN vs |-> TLCEval([k \in DOMAIN vs |-> TLCEval(Grave(Changes(vs[i], vs[k])))])])
HistoriesAddUp == family = "" \/ \E vs \in {Versions} : \E at \in {AllPairs(vs)} : Composes(at) /\ StepsAddUp(at)
SelfIsNothing == family = "" \/ \A v \in FAMILIES[family] : Grave(Changes(v, v)) = {}
Case == family = "" \/ Note("CASE", [id |-> family, docs |-> Versions])
=============================================================================
