------------------------------- MODULE Shapes -------------------------------
(***************************************************************************)
(* Documents that hold a given small thing (a set of names, a value, a     *)
(* text, a kind, applications, root operations, one odd member of a row)   *)
(* in every place the language lets such a thing stand.                    *)
(***************************************************************************)
EXTENDS Docs

Opt == T("Int")
Req == Nn(T("Int"))

-----------------------------------------------------------------------------
(* names: sets of at most two names, in all places that hold named things  *)
NAMES == {"a", "A", "aa", "a_", "_a", "a1", "b", "ab", "ba", "aB"}
Few == {S \in SUBSET NAMES : Cardinality(S) <= 2}
(* one name of a longer or odder kind                                      *)
ODD == {"abcdefghij1", "abcdefghij2", "abcdefghijklmnopqrstuvwxyz1", "abcdefghijklmnopqrstuvwxyz2", "ABCDEFGHIJ1", "a_b", "aB_", "__a", "a__", "a1a", "a2a", "type", "Type", "input", "on", "id", "Id", "Int_", "String1"}
One == {{x} : x \in ODD \union {"a"}}

Names(S) == LET q == SetToSeq(S) each(F(_)) == [i \in DOMAIN q |-> F(q[i])] IN [Doc0 EXCEPT
  !.defs = each(LAMBDA x : [Def("ENUM", x) EXCEPT !.values = <<Val("v")>>])
    \o << [Def("OBJECT", "O") EXCEPT !.ifaces = q, !.dirs = each(LAMBDA x : App(x, <<>>)),
             !.fields = each(LAMBDA x : Fld(x, Opt)) \o << [Fld("f", Opt) EXCEPT !.args = each(LAMBDA x : Arg(x, Req, NIL)),
                                                             !.dirs = <<App("mark", each(LAMBDA x : AppArg(x, "1")))>>] >>],
          [Def("INPUT_OBJECT", "N") EXCEPT !.fields = each(LAMBDA x : Fld(x, Req)) \o <<Fld("f", Opt)>>],
          [Def("ENUM", "E") EXCEPT !.values = each(Val) \o <<Val("f")>>],
          [Def("UNION", "U") EXCEPT !.members = <<"M">> \o q] >>,
  !.exts = each(LAMBDA x : [Def("OBJECT", x \o "X") EXCEPT !.fields = <<Fld("v", Opt)>>]),
  !.dirs = each(LAMBDA x : DirDef(x, <<>>, <<"FIELD">>)) \o << DirDef("d", each(LAMBDA x : Arg(x, Opt, NIL)), <<"FIELD">>) >>]

-----------------------------------------------------------------------------
(* values: defaults, arguments of applications, reasons                    *)
VALUES == {NIL, "1", "1.0", "-1", "10", "\"1\"", "\"\"", "\" \"", "null", "\"null\"", "\"<nil>\"", "RED", "\"RED\"", "red", "true", "\"true\"", "false",
           "[]", "[1]", "[1,2]", "[2,1]", "[[1]]", "{}", "{a:1}", "{a:2}", "{b:1}", "{A:1}",
           "\"words of some length 1\"", "\"words of some length 2\"", "[100,200,300,400,500,1]", "[100,200,300,400,500,2]", "\"a b\"", "\"a  b\"", "\"a_b\"", "\"A b\"", "A_B", "A_b", "1e1", "-0", "0"}
Given(name, v) == IF v = NIL THEN <<>> ELSE <<AppArg(name, v)>>
Reasoned(v) == <<App("deprecated", Given("reason", v))>>

Values(v) == [Doc0 EXCEPT
  !.defs = << [Def("OBJECT", "O") EXCEPT !.dirs = <<App("mark", Given("x", v))>>,
                 !.fields = << [Fld("f", Opt) EXCEPT !.args = <<Arg("x", Opt, v), Arg("y", Req, v)>>, !.dirs = <<App("mark", Given("x", v))>> \o Reasoned(v)] >>],
              [Def("INPUT_OBJECT", "N") EXCEPT !.fields = << [Fld("x", Opt) EXCEPT !.def = v], [Fld("y", Req) EXCEPT !.def = v, !.dirs = Reasoned(v)] >>],
              [Def("ENUM", "E") EXCEPT !.values = << [Val("V") EXCEPT !.dirs = Reasoned(v)] >>] >>,
  !.dirs = << DirDef("d", <<Arg("x", Opt, v), Arg("y", Req, v)>>, <<"FIELD">>) >>]

-----------------------------------------------------------------------------
(* words: descriptions, in every place, or in one                          *)
WORDS == {"words of a certain length and more 1", "words of a certain length and more 2", "Words of a certain length and more 1", "w1", "w2", "w_w", "w w.", "1.0 w", "1 w", "", "w", "W", "ww", "w w", "w  w", "w.", "#w", "\\n", "w\nw", "w\nww", "\"", "'w'", "nil", "<nil>"}
ALIKE == {"", "w", "W", "w1", "w2", "w_w", "ww", "w w", "w  w", "words of a certain length and more 1", "words of a certain length and more 2", "w\nw", "w\nww"}
PLACES == {"object", "field", "argument", "input", "inputfield", "enum", "value", "union", "scalar", "interface", "directive", "dirargument", "extension"}

Words(w) ==
  LET d(p) == IF p \in w.in THEN w.text ELSE "words" IN [Doc0 EXCEPT
  !.defs = << [Def("OBJECT", "O") EXCEPT !.desc = d("object"),
                 !.fields = << [Fld("f", Opt) EXCEPT !.desc = d("field"), !.args = << [Arg("x", Opt, NIL) EXCEPT !.desc = d("argument")] >>] >>],
              [Def("INTERFACE", "I") EXCEPT !.desc = d("interface"), !.fields = << Fld("f", Opt) >>],
              [Def("INPUT_OBJECT", "N") EXCEPT !.desc = d("input"), !.fields = << [Fld("f", Opt) EXCEPT !.desc = d("inputfield")] >>],
              [Def("ENUM", "E") EXCEPT !.desc = d("enum"), !.values = << [Val("V") EXCEPT !.desc = d("value")] >>],
              [Def("UNION", "U") EXCEPT !.desc = d("union"), !.members = <<"O">>],
              [Def("SCALAR", "S") EXCEPT !.desc = d("scalar")] >>,
  !.exts = << [Def("OBJECT", "X") EXCEPT !.fields = << [Fld("f", Opt) EXCEPT !.desc = d("extension")] >>] >>,
  !.dirs = << [DirDef("d", << [Arg("x", Opt, NIL) EXCEPT !.desc = d("dirargument")] >>, <<"FIELD">>) EXCEPT !.desc = d("directive")] >>]

-----------------------------------------------------------------------------
(* kinds: one type as each kind or absent, as definition and as extension  *)
KINDS == {"OBJECT", "INTERFACE", "ENUM", "INPUT_OBJECT", "UNION", "SCALAR"}
Content(k) == LET t == Def(k, "A") IN
  CASE k \in {"OBJECT", "INTERFACE"} -> [t EXCEPT !.fields = <<Fld("f", Req)>>]
    [] k = "INPUT_OBJECT" -> [t EXCEPT !.fields = <<Fld("f", Req)>>]
    [] k = "open INPUT_OBJECT" -> [t EXCEPT !.kind = "INPUT_OBJECT", !.fields = <<Fld("f", Opt)>>]
    [] k = "ENUM" -> [t EXCEPT !.values = <<Val("f")>>]
    [] k = "UNION" -> [t EXCEPT !.members = <<"f">>]
    [] OTHER -> [t EXCEPT !.dirs = <<App("f", <<>>)>>]
Part(k) == IF k = "" THEN <<>> ELSE <<Content(k)>>
States == {"", "open INPUT_OBJECT"} \union KINDS
Kinds(s) == [Doc0 EXCEPT !.defs = Part(s.def) \o <<Def("SCALAR", "Z")>>, !.exts = Part(s.ext)]

-----------------------------------------------------------------------------
(* apps: sequences of applications, some of them deprecations              *)
Mark(v) == App("m", Given("x", v))
Lists(A, k) == UNION {[1..i -> A] : i \in 0..k}
APPS == Lists({Mark(NIL), Mark("1"), Mark("2"), App("mm", <<>>), App("deprecated", <<>>), App("deprecated", <<AppArg("reason", "\"r\"")>>)}, 2)
        \union Lists({Mark("1"), Mark("2")}, 3)
Apps(a) == [Doc0 EXCEPT
  !.defs = << [Def("OBJECT", "O") EXCEPT !.dirs = a, !.fields = << [Fld("f", Opt) EXCEPT !.dirs = a], Fld("g", Opt) >>],
              [Def("INTERFACE", "I") EXCEPT !.dirs = a, !.fields = << Fld("g", Opt), [Fld("f", Opt) EXCEPT !.dirs = a] >>],
              [Def("INPUT_OBJECT", "N") EXCEPT !.fields = << [Fld("f", Opt) EXCEPT !.dirs = a] >>],
              [Def("ENUM", "E") EXCEPT !.values = << [Val("V") EXCEPT !.dirs = a] >>] >>]

-----------------------------------------------------------------------------
(* roots: what the schema block says, if there is one, and which types of  *)
(* default names there are                                                 *)
OpStates == {"", "default", "other"}
Type(op, s) == IF s = "other" THEN "Other" ELSE IF op = "query" THEN "Query" ELSE "Mutation"
Told(q, m) == (IF q = "" THEN <<>> ELSE <<Op("query", Type("query", q))>>) \o (IF m = "" THEN <<>> ELSE <<Op("mutation", Type("mutation", m))>>)
BlockStates == {b \in [block : BOOLEAN, q : OpStates, m : OpStates] : b.block = (b.q # "" \/ b.m # "")}      \* a block says something
TypeStates == {"none", "def", "ext", "both"}
(* the type, told apart from the roots: it is there or not on both sides alike *)
ROOTS == {[b |-> b, t |-> t, x |-> ""] : b \in BlockStates, t \in TypeStates} \union {[b |-> b, t |-> "def", x |-> x] : b \in BlockStates, x \in {"query", "subscription"}}
QueryType == [Def("OBJECT", "Query") EXCEPT !.fields = <<Fld("f", Opt)>>]
Roots(s) == [Doc0 EXCEPT
  !.schema = IF s.b.block THEN <<Block(Told(s.b.q, s.b.m))>> ELSE <<>>,
  !.schemaExt = IF s.x = "" THEN <<>> ELSE <<Block(<<Op(s.x, "Further")>>)>>,
  !.defs = <<Def("SCALAR", "Z")>> \o IF s.t \in {"def", "both"} THEN <<QueryType>> ELSE <<>>,
  !.exts = IF s.t \in {"ext", "both"} THEN <<QueryType>> ELSE <<>>]

-----------------------------------------------------------------------------
(* rows: long collections of which one member, wherever it stands, is new, *)
(* lost, different in each of its details, or moved                        *)
LENGTHS == {1, 2, 3, 4, 5, 9, 17, 33, 65}
STYLES == {"n", "aLongerNameOf", "_n", "N_", "type"}
ROWS == {r \in [len : LENGTHS, at : (1..17) \union {32, 33, 64, 65}, how : {"gone", "other", "first"}, style : STYLES] :
           r.at <= r.len /\ (r.len > 17 => r.at \in {1, 17, r.len - 1, r.len}) /\ (r.style # "n" => r.len = 2)}
Row(s) ==
  LET ids == SelectSeq([i \in 1..s.len |-> i], LAMBDA i : ~(s.how = "gone" /\ i = s.at))
      q == IF s.how = "first" THEN <<s.at>> \o SelectSeq(ids, LAMBDA i : i # s.at) ELSE ids
      odd(i) == s.how = "other" /\ i = s.at
      each(F(_)) == [k \in DOMAIN q |-> F(q[k])]
      nm(i) == s.style \o ToString(i)
      v(i) == IF odd(i) THEN "2" ELSE "1"
      w(i) == IF odd(i) THEN "other words" ELSE "words"
      t(i) == IF odd(i) THEN T("ID") ELSE Opt
      apps == each(LAMBDA i : App(nm(i), <<AppArg("x", v(i))>>))
      many == each(LAMBDA i : App("many", <<AppArg("x", IF odd(i) THEN "0" ELSE ToString(i))>>))
      args == each(LAMBDA i : [Arg(nm(i), t(i), v(i)) EXCEPT !.desc = w(i)])
      dep(i) == IF odd(i) THEN <<App("deprecated", <<>>)>> ELSE <<>>
  IN [Doc0 EXCEPT
  !.defs = << [Def("OBJECT", "O") EXCEPT !.ifaces = each(LAMBDA i : IF odd(i) THEN "Other" ELSE nm(i)), !.dirs = apps,
                 !.fields = each(LAMBDA i : [Fld(nm(i), t(i)) EXCEPT !.desc = w(i), !.dirs = dep(i)])
                            \o << [Fld("f", Opt) EXCEPT !.args = args, !.dirs = << App("mark", each(LAMBDA i : AppArg(nm(i), v(i)))) >> \o many] >>],
              [Def("INPUT_OBJECT", "N") EXCEPT !.fields = each(LAMBDA i : [Fld(nm(i), t(i)) EXCEPT !.desc = w(i), !.def = v(i), !.dirs = dep(i)]) \o <<Fld("f", Opt)>>],
              [Def("ENUM", "E") EXCEPT !.values = each(LAMBDA i : [Val(nm(i)) EXCEPT !.desc = w(i), !.dirs = dep(i)]) \o <<Val("f")>>],
              [Def("UNION", "U") EXCEPT !.members = each(LAMBDA i : IF odd(i) THEN "Other" ELSE nm(i)) \o <<"M">>] >>
     \o each(LAMBDA i : [Def("SCALAR", nm(i)) EXCEPT !.desc = w(i)]),
  !.exts = each(LAMBDA i : [Def("OBJECT", nm(i)) EXCEPT !.fields = <<Fld("f", t(i))>>]),
  !.dirs = << DirDef("d", args, <<"FIELD">>) >> \o each(LAMBDA i : [DirDef(nm(i), <<>>, <<"FIELD">>) EXCEPT !.desc = w(i)])]

-----------------------------------------------------------------------------
(* refs: type references and root operations by one name                   *)
ByName(x) == [Doc0 EXCEPT
  !.schema = <<Block(<<Op("query", x), Op("mutation", x)>>)>>,
  !.schemaExt = <<Block(<<Op("subscription", x)>>)>>,
  !.defs = << [Def("OBJECT", "O") EXCEPT !.fields = << [Fld("f", T(x)) EXCEPT !.args = <<Arg("x", T(x), NIL)>>], Fld("g", Nn(Ls(Nn(T(x))))) >>],
              [Def("INPUT_OBJECT", "N") EXCEPT !.fields = << Fld("f", T(x)), Fld("g", Ls(Nn(T(x)))) >>] >>,
  !.exts = << [Def("INTERFACE", "X") EXCEPT !.fields = << Fld("f", Ls(T(x))) >>] >>,
  !.dirs = << DirDef("d", <<Arg("x", Nn(T(x)), NIL)>>, <<"FIELD">>) >>]

-----------------------------------------------------------------------------
(* locs: the locations of a directive: all but one, or one                 *)
LOCATIONS == <<"QUERY", "MUTATION", "SUBSCRIPTION", "FIELD", "FRAGMENT_DEFINITION", "FRAGMENT_SPREAD", "INLINE_FRAGMENT", "VARIABLE_DEFINITION", "SCHEMA", "SCALAR", "OBJECT",
               "FIELD_DEFINITION", "ARGUMENT_DEFINITION", "INTERFACE", "UNION", "ENUM", "ENUM_VALUE", "INPUT_OBJECT", "INPUT_FIELD_DEFINITION">>
LOCS == {LOCATIONS} \union {SelectSeq(LOCATIONS, LAMBDA x : x # LOCATIONS[i]) : i \in DOMAIN LOCATIONS} \union {<<LOCATIONS[i]>> : i \in DOMAIN LOCATIONS}
Locs(q) == [Doc0 EXCEPT !.dirs = << DirDef("d", <<>>, q) >>]
=============================================================================
