----------------------------- MODULE MC_Client ------------------------------
(***************************************************************************)
(* C08 on the design level: if a version of a schema is reached without a  *)
(* Breaking change, every client operation still works; and ClientSafe, by *)
(* which recorded reports are judged, says exactly that.                   *)
(***************************************************************************)
EXTENDS Evolution, Client, Notes, IOUtils, TLCExt

Opt == T("Int")
Req == Nn(T("Int"))
cOUT == {Req, Opt, Nn(Ls(T("Int")))}
cIN == {Opt, Req, Ls(Nn(T("Int"))), Nn(Ls(T("Int"))), Ls(T("Int"))}
cDEF == {"1"}
cDESC == {"words"}
cKIND == {"OBJECT", "ENUM", "INPUT_OBJECT"}
cKINDS == {"OBJECT", "ENUM", "INPUT_OBJECT"}
cOPS == {"query", "mutation", "subscription"}
cLOCS == {"MUTATION", "OBJECT"}
cREASON == {"\"one\""}
cVALS == {"1"}

Obj(n, fs) == [Def("OBJECT", n) EXCEPT !.fields = fs]

Output == [Doc0 EXCEPT !.defs = <<
  Obj("Query", <<Fld("o", T("O")), Fld("i", Ls(T("I"))), Fld("u", Nn(T("U"))), [Fld("n", Opt) EXCEPT !.args = <<Arg("x", Opt, NIL)>>]>>),
  [Obj("O", <<Fld("a", Opt), Fld("b", Nn(Ls(T("Int")))), Fld("p", T("P"))>>) EXCEPT !.ifaces = <<"I", "J">>],
  [Obj("P", <<Fld("a", Opt)>>) EXCEPT !.ifaces = <<"I">>],
  [Def("INTERFACE", "I") EXCEPT !.fields = <<Fld("a", Opt)>>], [Def("INTERFACE", "J") EXCEPT !.fields = <<Fld("b", Ls(T("Int")))>>],
  [Def("UNION", "U") EXCEPT !.members = <<"O", "P">>] >>,
  !.exts = << Obj("O", <<Fld("x", Opt)>>), Obj("Mutation", <<Fld("m", Req)>>) >>]

Input == [Doc0 EXCEPT !.schema = <<Block(<<Op("query", "Root")>>)>>, !.defs = <<
  Obj("Root", <<[Fld("f", Opt) EXCEPT !.args = <<Arg("x", Opt, NIL), Arg("y", Req, "1"), Arg("z", Nn(Ls(Req)), NIL)>>],
                [Fld("g", Opt) EXCEPT !.args = <<Arg("e", T("E"), "A"), Arg("n", T("N"), NIL)>>],
                [Fld("h", T("E")) EXCEPT !.args = <<Arg("ns", Ls(Nn(T("N"))), NIL), Arg("s", T("S"), NIL)>>]>>),
  [Def("ENUM", "E") EXCEPT !.values = <<Val("A"), Val("B")>>], Def("SCALAR", "S"),
  [Def("INPUT_OBJECT", "N") EXCEPT !.fields = <<Fld("a", Req), [Fld("b", Req) EXCEPT !.def = "1"], Fld("e", Ls(T("E")))>>] >>,
  !.exts = <<[Def("INPUT_OBJECT", "N") EXCEPT !.fields = <<Fld("c", T("N"))>>]>>]

Directives == [Doc0 EXCEPT !.schema = <<Block(<<Op("query", "Root")>>)>>, !.schemaExt = <<Block(<<Op("subscription", "Root")>>)>>,
  !.defs = << Obj("Root", <<Fld("f", Opt)>>), [Def("ENUM", "E") EXCEPT !.values = <<Val("A"), Val("B")>>] >>,
  !.dirs = << [DirDef("d", <<Arg("x", Opt, "1"), Arg("y", Req, NIL), Arg("e", T("E"), NIL)>>, <<"FIELD", "QUERY", "SUBSCRIPTION">>) EXCEPT !.rep = TRUE],
              DirDef("c", <<>>, <<"OBJECT", "INLINE_FRAGMENT">>), DirDef("t", <<Arg("y", Req, NIL)>>, <<"OBJECT">>) >>]

Bases == [output |-> Output, input |-> Input, directives |-> Directives]
cDEPTH == IF IOEnv.DEPTH = "1" THEN 1 ELSE IF IOEnv.DEPTH = "2" THEN 2 ELSE 3
Before == [b \in DOMAIN Bases |-> View(Bases[b])]
Clients == [b \in DOMAIN Bases |-> {o \in Operations(Before[b], 3) : Valid(Before[b], o)}]
Made == [b \in DOMAIN Bases |-> Cardinality(Operations(Before[b], 3))]

VARIABLE base
all == <<vars, base>>
Init == base \in DOMAIN Bases /\ (IOEnv.BASE = "all" \/ IOEnv.BASE = base) /\ Begin(Bases[base])
Spec == Init /\ [][Evolve /\ UNCHANGED base]_all
Version == <<new, apart, steps, base>>

Works(N2) == \A o \in Clients[base] : StillWorks(Before[base], N2, o)
SameKinds(o, n) == \A i \in DOMAIN o : Has(n, o[i].name) => o[i].kind = Get(n, o[i].name).kind
ClientsKeepWorking ==
  \E r \in {Changes(old, new)} : \E N2 \in {View(new)} : \E works \in {Works(N2)} :
  \E none \in {\A i \in DOMAIN r : r[i].crit # B} : \E safe \in {ClientSafe(old, new)} :
    /\ Must("NoBreakingKeepsWorking", PartsFit(new) /\ none => works)
    /\ Must("SafeKeepsWorking", PartsFit(new) /\ safe => works)
    /\ Must("UnsafeBreaksSomeone", PartsFit(new) /\ SameKinds(Effective(old), N2.types) /\ works => safe)
(* all generated operations are valid where they come from *)
OperationsAreValid == steps = 0 => Must("OperationsAreValid", Cardinality(Clients[base]) = Made[base]) /\ PrintT(<<"operations", base, Made[base]>>)
Case == Note("CASE", [id |-> "client:" \o base, kind |-> IF Equivalent(old, new) THEN "same" ELSE "pair", old |-> old, new |-> new, edits |-> SetToSeq({ToString(c) : c \in cells})])
=============================================================================
