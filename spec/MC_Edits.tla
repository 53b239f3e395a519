------------------------------ MODULE MC_Edits ------------------------------
(* Evolution from hand-made schemas that have one of everything; each      *)
(* version reached is a case for the real comparison.                      *)
EXTENDS Evolution, Notes, IOUtils

Opt == T("Int")
Req == Nn(T("Int"))
cOUT == {Req, T("A"), Nn(Ls(T("Int")))}
cIN == {Opt, Req, Ls(Nn(T("Int")))}
cDEF == {"1", "[2]"}
cDESC == {"", "words"}
cKIND == {"OBJECT", "ENUM", "INPUT_OBJECT"}
cKINDS == {"OBJECT", "INTERFACE", "ENUM", "INPUT_OBJECT", "UNION", "SCALAR"}
cOPS == {"query", "mutation", "subscription"}
cLOCS == {"QUERY", "OBJECT"}
cREASON == {"\"one\"", "\"two\""}
cVALS == {"1", "\"1\""}

Mark(a) == App("mark", <<AppArg("by", a)>>)

ObjectBase == [Doc0 EXCEPT !.defs = <<
  [Def("OBJECT", "O") EXCEPT !.desc = "an object", !.ifaces = <<"I", "J">>, !.dirs = <<Mark("1")>>,
     !.fields = << [Fld("f", Opt) EXCEPT !.args = <<Arg("x", Opt, NIL), Arg("y", Req, "1")>>, !.dirs = <<Deprecated("\"one\"")>>],
                   Fld("g", Nn(Ls(T("Int")))) >>] >>]

InterfaceBase == [Doc0 EXCEPT !.defs = <<
  [Def("INTERFACE", "I") EXCEPT
     !.fields = << [Fld("f", Req) EXCEPT !.desc = "words", !.dirs = <<App("mark", <<>>), Deprecated("")>>],
                   [Fld("ff", Opt) EXCEPT !.args = <<Arg("x", Req, NIL)>>] >>],
  Def("SCALAR", "S") >>]

(* repeated applications of a directive *)
AppsBase == [Doc0 EXCEPT !.defs = <<
  [Def("OBJECT", "O") EXCEPT !.dirs = <<Mark("1"), App("other", <<>>), Mark("2")>>,
     !.fields = << [Fld("f", Opt) EXCEPT !.dirs = <<Mark("1"), Deprecated("\"one\""), Mark("2"), App("last", <<AppArg("p", "1"), AppArg("q", "[1]")>>)>>] >>],
  [Def("INPUT_OBJECT", "N") EXCEPT !.fields = << [Fld("f", Req) EXCEPT !.dirs = <<App("mark", <<AppArg("by", "1")>>)>>] >>] >>]

InputBase == [Doc0 EXCEPT !.defs = <<
  [Def("INPUT_OBJECT", "N") EXCEPT !.desc = "input",
     !.fields = << [Fld("a", Req) EXCEPT !.def = "1", !.dirs = <<Deprecated("\"two\"")>>], Fld("b", Req), [Fld("bb", Opt) EXCEPT !.def = "[2]"] >>] >>]

ListBase == [Doc0 EXCEPT !.defs = <<
  [Def("ENUM", "E") EXCEPT !.values = <<[Val("A") EXCEPT !.dirs = <<Deprecated("\"one\"")>>], [Val("AA") EXCEPT !.desc = "words"], Val("B")>>],
  [Def("UNION", "U") EXCEPT !.members = <<"A", "AA", "B">>], Def("SCALAR", "S") >>]

DirBase == [Doc0 EXCEPT
  !.dirs = << [DirDef("d", <<Arg("x", Opt, "1"), Arg("xx", Req, NIL)>>, <<"FIELD", "QUERY">>) EXCEPT !.desc = "words"],
              [DirDef("dd", <<>>, <<"OBJECT", "ENUM_VALUE">>) EXCEPT !.rep = TRUE] >>]

RootBase == [Doc0 EXCEPT
  !.schema = <<Block(<<Op("query", "Query"), Op("mutation", "M")>>)>>, !.schemaExt = <<Block(<<Op("subscription", "S")>>)>>,
  !.defs = << [Def("OBJECT", "Query") EXCEPT !.fields = <<Fld("f", Opt)>>] >>]

(* roots by default names only *)
ImplicitBase == [Doc0 EXCEPT !.defs = << [Def("OBJECT", "Query") EXCEPT !.fields = <<Fld("f", Opt)>>],
                                         [Def("OBJECT", "Subscription") EXCEPT !.fields = <<Fld("f", Opt)>>] >>,
                             !.exts = << [Def("OBJECT", "Mutation") EXCEPT !.fields = <<Fld("f", Opt)>>] >>]

ExtBase == [Doc0 EXCEPT
  !.defs = << [Def("OBJECT", "O") EXCEPT !.fields = <<Fld("f", Opt)>>],
              [Def("INPUT_OBJECT", "N") EXCEPT !.fields = <<Fld("a", Opt)>>] >>,
  !.exts = << [Def("OBJECT", "O") EXCEPT !.fields = <<Fld("g", Opt), [Fld("h", Opt) EXCEPT !.args = <<Arg("x", Opt, NIL)>>]>>],
              [Def("INPUT_OBJECT", "N") EXCEPT !.fields = <<[Fld("b", Req) EXCEPT !.def = "1"]>>],
              [Def("OBJECT", "O") EXCEPT !.fields = <<[Fld("k", Req) EXCEPT !.dirs = <<Mark("1")>>]>>, !.ifaces = <<"I">>] >>]

ExtListBase == [Doc0 EXCEPT
  !.defs = << [Def("ENUM", "E") EXCEPT !.values = <<Val("A"), Val("B")>>], [Def("UNION", "U") EXCEPT !.members = <<"A", "B">>] >>,
  !.exts = << [Def("ENUM", "E") EXCEPT !.values = <<Val("C"), [Val("D") EXCEPT !.dirs = <<Deprecated("")>>]>>],
              [Def("UNION", "U") EXCEPT !.members = <<"C", "D">>],
              [Def("INTERFACE", "I") EXCEPT !.fields = <<Fld("f", Opt), Fld("g", Req)>>],
              [Def("INPUT_OBJECT", "N") EXCEPT !.fields = <<Fld("f", Opt)>>] >>]

Bases == [object |-> ObjectBase, interface |-> InterfaceBase, apps |-> AppsBase, input |-> InputBase, list |-> ListBase, dir |-> DirBase,
          root |-> RootBase, implicit |-> ImplicitBase, ext |-> ExtBase, extlist |-> ExtListBase]
cDEPTH == IF IOEnv.DEPTH = "1" THEN 1 ELSE IF IOEnv.DEPTH = "2" THEN 2 ELSE IF IOEnv.DEPTH = "3" THEN 3 ELSE 12

Init == \E b \in DOMAIN Bases : (IOEnv.BASE = "all" \/ IOEnv.BASE = b) /\ Begin(Bases[b])
Spec == Init /\ [][Evolve]_vars
Version == <<new, apart, steps>>
Case == Note("CASE", [id |-> "edits:" \o IOEnv.BASE, kind |-> IF Equivalent(old, new) THEN "same" ELSE "pair", old |-> old, new |-> new, edits |-> SetToSeq({ToString(c) : c \in cells})])
=============================================================================
