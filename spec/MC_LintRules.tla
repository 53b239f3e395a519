---------------------------- MODULE MC_LintRules ----------------------------
(***************************************************************************)
(* The lint rules over complete universes of small documents. Each         *)
(* document is a case for the real rules; what must hold of the rules      *)
(* themselves is checked on the way: nothing is reported twice, each       *)
(* definition is judged on its own, and order does not matter.             *)
(***************************************************************************)
EXTENDS LintRules, Docs, Notes, IOUtils

CONSTANT SIZE      \* longest name

(* names over one letter of each case, a digit and the underscore          *)
RECURSIVE Words(_)
Words(n) == IF n = 0 THEN {""} ELSE Words(n - 1) \union {w \o c : w \in Words(n - 1), c \in {"a", "Z", "1", "_"}}
(* every letter and digit, first, in the middle and last; long names       *)
Odd == UNION {{c, "x" \o c, "X" \o c, "x" \o c \o "y", "X" \o c \o "Y", "_" \o c, c \o "_", c \o "X", c \o "x", "XXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXX" \o c,
               "xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx" \o c \o "x", "X_1_" \o c, "X_9" \o c \o "_X"} : c \in LOWER \union UPPER \union DIGITS}
       \union {"HTTP_STATUS_404", "httpStatus404", "HttpStatus404", "getHTTPResponse", "iOS", "IOs", "x__y", "X__Y", "__typename", "__TypeKind", "type", "TYPE", "Type", "query", "on", "ON", "aLongNameOfSeveralWords",
               "A_LONG_NAME_OF_SEVERAL_WORDS", "A_LONG_NAME_OF_sEVERAL_WORDS", "trueX", "nullX", "NULL_", "input", "enum", "implements"}
Names == {w \in Words(SIZE) \union Odd : w \notin {"", "In", "If", "En", "Em", "Ex", "ok", "OK"} /\ Char(w, 1) \notin DIGITS}
NameDoc(nm) == [Doc0 EXCEPT
  !.defs = << [Def("OBJECT", nm) EXCEPT !.fields = <<[Fld(nm, T("Int")) EXCEPT !.args = <<Arg(nm, T("Int"), NIL), Arg("ok", T("Int"), NIL)>>], Fld("ok", T("Int"))>>],
              [Def("OBJECT", nm \o "Connection") EXCEPT !.fields = <<Fld(nm, Nn(T(nm \o "Connection"))), Fld(nm \o "edges", T("Int"))>>],
              [Def("INPUT_OBJECT", "In") EXCEPT !.fields = <<Fld(nm, T("Int"))>>],
              [Def("INTERFACE", "If") EXCEPT !.fields = <<Fld("ok", T("Int")), Fld(nm, T("Int"))>>],
              [Def("ENUM", "En") EXCEPT !.values = <<Val("OK"), Val(nm)>>],
              [Def("ENUM", "Em") EXCEPT !.values = <<Val(nm), Val("OK")>>] >>,
  !.exts = << [Def("INTERFACE", nm \o "X") EXCEPT !.fields = <<[Fld("x" \o nm, T(nm \o "Connection")) EXCEPT !.args = <<Arg("last", T("Int"), NIL), Arg("x" \o nm, T("Int"), NIL)>>]>>],
              [Def("ENUM", "En") EXCEPT !.values = <<Val("x" \o nm), Val(nm \o "X")>>],
              [Def("ENUM", "Ex") EXCEPT !.values = <<Val(nm), Val("OK")>>],
              [Def("OBJECT", nm) EXCEPT !.fields = <<Fld(nm, T("Int"))>>],
              [Def("INPUT_OBJECT", "x" \o nm) EXCEPT !.fields = <<Fld(nm, T("Int"))>>] >>]

Kinds == {"OBJECT", "INTERFACE", "INPUT_OBJECT", "ENUM", "UNION", "SCALAR"}
Words2(b, x) == [x EXCEPT !.desc = IF b THEN "words" ELSE ""]
DescDef(k, nm, d) ==
  LET args == <<Words2(d[2], Arg("p", T("Int"), NIL)), Words2(d[3], Arg("q", T("Int"), "1"))>>
      fields == << Words2(d[4], [Fld("f", T("Int")) EXCEPT !.args = IF k = "INPUT_OBJECT" THEN <<>> ELSE args]), Words2(d[5], Fld("g", T("Int"))) >>
  IN CASE k \in {"OBJECT", "INTERFACE", "INPUT_OBJECT"} -> Words2(d[1], [Def(k, nm) EXCEPT !.fields = fields])
       [] k = "ENUM" -> Words2(d[1], [Def(k, nm) EXCEPT !.values = <<Words2(d[4], Val("A")), Words2(d[5], Val("B"))>>])
       [] k = "UNION" -> Words2(d[1], [Def(k, nm) EXCEPT !.members = <<"A", "B">>])
       [] OTHER -> Words2(d[1], Def(k, nm))
Flags == [1..5 -> BOOLEAN]
DescDoc(k, d) == [Doc0 EXCEPT !.defs = <<DescDef(k, "A", d)>>,
                              !.exts = <<[DescDef(k, "A", [d EXCEPT ![1] = FALSE]) EXCEPT !.dirs = IF k = "SCALAR" THEN <<App("d", <<>>)>> ELSE <<>>]>>]

Absent == T("")
ConnNames == {"Connection", "AConnection", "AConnections", "Aconnection", "ConnectionA", "A_Connection", "onnection", "AXonnection", "AConnectiom"}
EdgesTypes == {Absent} \union Refs({"E"}, 2)
PageTypes == {Absent, T("PageInfo"), Nn(T("PageInfo")), Ls(Nn(T("PageInfo"))), Nn(Ls(T("PageInfo"))), Nn(T("PageInf")), Nn(T("PageInfo2")), Nn(T("pageInfo")),
              Nn(T("Int"))}
May(name, t) == IF t = Absent THEN <<>> ELSE <<Fld(name, t)>>
ConnDef(nm, e, p, turn) ==
  [Def("OBJECT", nm) EXCEPT !.fields = IF turn THEN May("pageInfo", p) \o <<Fld("x", T("E"))>> \o May("edges", e)
                                      ELSE May("edges", e) \o May("pageInfo", p) \o <<Fld("edge", Nn(T("E")))>>]
ConnDoc(nm, e, p, turn) == [Doc0 EXCEPT !.defs = <<Def("SCALAR", "S"), ConnDef(nm, e, p, turn)>>, !.exts = <<ConnDef(nm, e, p, ~turn)>>]
KindDoc(nm, k) == [Doc0 EXCEPT !.defs = <<DescDef(k, nm, [i \in 1..5 |-> TRUE])>>]

CountTypes == {Absent, T("Int"), Nn(T("Int")), T("Int2"), Ls(T("Int")), Nn(Ls(Nn(T("Int")))), Nn(T("String"))}
CursorTypes == {Absent, T("String"), Nn(Ls(T("Int")))}
RECURSIVE Wrapped(_, _)
Wrapped(t, k) == IF k = 0 THEN t ELSE Nn(Ls(Wrapped(t, k - 1)))
ReturnTypes == {Wrapped(T("AConnection"), 5), Wrapped(Nn(T("AConnections")), 4), T("AConnection"), Nn(T("Connection")), Ls(T("AConnection")), Nn(Ls(Nn(Ls(Nn(T("Connection")))))), T("ConnectionA"), Ls(T("A")),
                T("onnection"), Nn(T("AXonnection")), T("AConnectiom"), Ls(T("connection"))}
MayArg(name, t) == IF t = Absent THEN <<>> ELSE <<Arg(name, t, NIL)>>
(* all types of first and last at once: a field for each *)
ArgsFields(after, before, ret, turn) ==
  LET fs == SetToSeq(CountTypes \X CountTypes)
      args(p) == MayArg("first", p[1]) \o MayArg("before", before) \o MayArg("after", after) \o MayArg("last", p[2])
  IN [i \in DOMAIN fs |-> [Fld("f" \o ToString(i), ret) EXCEPT !.args = IF turn THEN Reverse(args(fs[i])) \o <<Arg("x", T("Int"), NIL)>> ELSE args(fs[i])]]
ArgsDoc(k, after, before, ret, turn) ==
  [Doc0 EXCEPT !.defs = << [Def(k, "A") EXCEPT !.fields = ArgsFields(after, before, ret, turn)] >>,
               !.exts = << [Def(k, "A") EXCEPT !.fields = <<Fld("g", ret)>>] >>]

(* rows: one odd member (undescribed, or named differently) of a long row, *)
(* wherever it stands; or one that is all right among odd ones             *)
RowLengths == {2, 9, 17, 33, 65}
RowDoc(len, at, most) ==
  LET good(i) == (i = at) # most
      words(i, x) == Words2(good(i), x)
      nm(i) == "n" \o ToString(i)  up(i) == "N" \o ToString(i)
      each(F(_)) == [i \in 1..len |-> F(i)]
      args == each(LAMBDA i : words(i, Arg(nm(i), T("Int"), NIL)))
      fields(as) == each(LAMBDA i : words(i, [Fld(IF good(i) THEN nm(i) ELSE up(i), T("Int")) EXCEPT !.args = IF as /\ i \in {1, len} THEN args ELSE <<>>]))
      values == each(LAMBDA i : words(i, Val(IF good(i) THEN up(i) ELSE nm(i))))
      conns(p) == each(LAMBDA i : [Fld("f" \o ToString(i), T(p)) EXCEPT !.args = IF good(i) THEN <<Arg("first", T("Int"), NIL), Arg("after", T("String"), NIL)>> ELSE <<Arg("after", T("String"), NIL)>>])
      among(x) == each(LAMBDA i : IF i = at THEN x ELSE Arg(nm(i), T("Int"), NIL))
      fieldsWith(x) == each(LAMBDA i : IF i = at THEN x ELSE Fld(nm(i), T("Int")))
      member(i) == words(i, [Fld(IF good(i) THEN "f" ELSE "F", T("AConnection")) EXCEPT !.args = IF good(i) THEN <<words(i, Arg("first", T("Int"), NIL)), words(i, Arg("after", T("String"), NIL))>> ELSE <<words(i, Arg("x", T("Int"), NIL))>>])
      value(i) == words(i, Val(IF good(i) THEN "V" ELSE "v"))
      wide == << [Fld("w1", T("AConnection")) EXCEPT !.args = among(Arg("first", T("Int"), NIL)) \o <<Arg("after", T("String"), NIL)>>],
                 [Fld("w2", T("AConnection")) EXCEPT !.args = <<Arg("before", T("String"), NIL)>> \o among(Arg("last", Ls(T("Int")), NIL))],
                 [Fld("w3", T("AConnection")) EXCEPT !.args = among(Arg("first", Nn(T("Int")), NIL))] >>
  IN [Doc0 EXCEPT
    !.defs = << [Def("OBJECT", "W") EXCEPT !.fields = wide],
                [Def("OBJECT", "W1Connection") EXCEPT !.fields = <<Fld("pageInfo", Nn(T("PageInfo")))>> \o fieldsWith(Fld("edges", Ls(T("E"))))],
                [Def("OBJECT", "W2Connection") EXCEPT !.fields = fieldsWith(Fld("pageInfo", Nn(T("PageInfo")))) \o <<Fld("edges", T("E"))>>],
                [Def("OBJECT", "W3Connection") EXCEPT !.fields = <<Fld("edges", Ls(T("E")))>> \o fieldsWith(Fld("pageInfo", T("PageInfo")))],
                [Def("OBJECT", "A") EXCEPT !.fields = fields(TRUE)], [Def("INPUT_OBJECT", "In") EXCEPT !.fields = fields(FALSE)], [Def("INTERFACE", "If") EXCEPT !.fields = fields(FALSE)],
                [Def("ENUM", "En") EXCEPT !.values = values], [Def("OBJECT", "Cs") EXCEPT !.fields = conns("AConnection")] >>
       \o each(LAMBDA i : words(i, Def("SCALAR", (IF good(i) THEN "S" ELSE "s") \o ToString(i))))
       \o each(LAMBDA i : words(i, [Def("OBJECT", "O" \o ToString(i)) EXCEPT !.fields = <<member(i)>>]))
       \o each(LAMBDA i : words(i, [Def("ENUM", "Y" \o ToString(i)) EXCEPT !.values = <<value(i)>>]))
       \o each(LAMBDA i : ConnDef("C" \o ToString(i) \o "Connection", IF good(i) THEN Ls(T("E")) ELSE T("E"), IF good(i) THEN Nn(T("PageInfo")) ELSE Absent, i % 2 = 0)),
    !.exts = << [Def("OBJECT", "A") EXCEPT !.fields = fields(FALSE)], [Def("ENUM", "En") EXCEPT !.values = values] >>
       \o each(LAMBDA i : [Def("OBJECT", (IF good(i) THEN "X" ELSE "x") \o ToString(i)) EXCEPT !.fields = <<member(i)>>])
       \o each(LAMBDA i : [Def("ENUM", "Z" \o ToString(i)) EXCEPT !.values = <<value(i)>>])]

-----------------------------------------------------------------------------
VARIABLE doc
Init == CASE IOEnv.UNIVERSE = "names" -> \E nm \in Names : doc = NameDoc(nm)
          [] IOEnv.UNIVERSE = "desc" -> \E k \in Kinds, d \in Flags : doc = DescDoc(k, d)
          [] IOEnv.UNIVERSE = "conn" -> \/ \E nm \in ConnNames, e \in EdgesTypes, p \in PageTypes, turn \in BOOLEAN : doc = ConnDoc(nm, e, p, turn)
                                        \/ \E nm \in ConnNames, k \in Kinds : doc = KindDoc(nm, k)
          [] IOEnv.UNIVERSE = "args" -> \E k \in {"OBJECT", "INTERFACE"}, a \in CursorTypes, b \in CursorTypes, r \in ReturnTypes, turn \in BOOLEAN :
                                          doc = ArgsDoc(k, a, b, r, turn)
          [] IOEnv.UNIVERSE = "rows" -> \E len \in RowLengths, at \in {1, 2, 9, 17, 33, 65}, most \in BOOLEAN : at <= len /\ doc = RowDoc(len, at, most)
Spec == Init /\ [][UNCHANGED doc]_doc

(* names of elements are unique here, so an error seen twice is one too many *)
Texts(d) == MapSeq(Reports(RULES, d), LAMBDA x : <<x.rule, x.text>>)
OnlyDef(i) == [Doc0 EXCEPT !.defs = <<doc.defs[i]>>]
OnlyExt(i) == [Doc0 EXCEPT !.exts = <<doc.exts[i]>>]
Turned == [doc EXCEPT !.defs = Reverse(@), !.exts = Reverse(@)]

UPPERCASE == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
LOWERCASE == "abcdefghijklmnopqrstuvwxyz"
Up(c) == IF c \in LOWER THEN Char(UPPERCASE, CHOOSE i \in 1..26 : Char(LOWERCASE, i) = c) ELSE c
RECURSIVE Upper(_)
Upper(s) == IF s = "" THEN "" ELSE Up(Char(s, 1)) \o Upper(SubSeq(s, 2, Len(s)))
AllNames == {doc.defs[i].name : i \in DOMAIN doc.defs} \union UNION {{doc.defs[i].values[j].name : j \in DOMAIN doc.defs[i].values} : i \in DOMAIN doc.defs}

Must(name, holds) == IF holds THEN TRUE ELSE PrintT(<<"FAILS", name>>) /\ FALSE
RulesAreRight ==
  \E t \in {Texts(doc)} :
    /\ Must("judged one by one", SameBag(t, FlatMap([i \in DOMAIN doc.defs |-> i], LAMBDA i : Texts(OnlyDef(i))) \o FlatMap([i \in DOMAIN doc.exts |-> i], LAMBDA i : Texts(OnlyExt(i)))))
    /\ Must("order", SameBag(t, Texts(Turned)))
    /\ Must("caps", \A n \in AllNames : AllCaps(n) <=> Upper(n) = n)
    /\ Must("camel", \A n \in AllNames : Camel(n) => ~AllCaps(n))
    /\ Must("one error per rule and element", \A r \in {"type-caps", "field-camel", "enum-caps", "type-desc", "relay-conn-type"} :
          LET own == FlatMap([i \in DOMAIN doc.defs |-> i], LAMBDA i : MapSeq(Report(r, OnlyDef(i)), LAMBDA x : x.text)) IN \A i, j \in DOMAIN own : i # j => own[i] # own[j])
Case == Note("CASE", [id |-> IOEnv.UNIVERSE, doc |-> doc])
=============================================================================
