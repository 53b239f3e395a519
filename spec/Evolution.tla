----------------------------- MODULE Evolution -----------------------------
(***************************************************************************)
(* A schema evolves by single edits. Each edit says, on its own terms,     *)
(* what has to be reported for it (its effect) and which part of the       *)
(* schema it touches (its cell). The report for a version reached by       *)
(* edits of different cells has to be the union of their effects; whatever *)
(* the edits, the report has to have the properties C01-C10.               *)
(***************************************************************************)
EXTENDS Docs, CompareViews, GqlClient, TLC

Del(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
Put(s, i, x) == [s EXCEPT ![i] = x]

Eff(ct, crit, path, elem) == <<[ct |-> ct, crit |-> crit, path |-> path, elem |-> elem]>>
Edit(x, eff, cell) == [x |-> x, eff |-> eff, cell |-> cell]
(* an edit of a part is an edit of the whole *)
Within(part, Whole(_)) == {[e EXCEPT !.x = Whole(e.x)] : e \in part}
(* edits of the i-th element of a list, for all i *)
InList(s, EditsOf(_)) == UNION {{[e EXCEPT !.x = Put(s, i, e.x)] : e \in EditsOf(s[i])} : i \in DOMAIN s}
Reordered(s, cell) == IF Len(s) < 2 THEN {} ELSE {Edit(Reverse(s), <<>>, cell \o <<"order">>)}
ToTop(s, x) == <<x>> \o s

-----------------------------------------------------------------------------
(* The vocabulary edits draw from                                          *)

CONSTANTS OUTTYPES, INTYPES, DEFAULTS, DESCS, KINDS, OPNAMES, NEWLOCS, REASONS, APPVALS

Accepts(o, n) == Members(o) \subseteq Members(n)
Produces(o, n) == Members(n) \subseteq Members(o)

DescEdits(x, ct, path, cell) == {Edit([x EXCEPT !.desc = d], Eff(ct, N, path, <<>>), cell \o <<"desc">>) : d \in DESCS \ {x.desc}}

(* deprecation: x is a field or an enum value *)
Deprecated(r) == App("deprecated", IF r = "" THEN <<>> ELSE <<AppArg("reason", r)>>)
Undep(x) == SelectSeq(x.dirs, LAMBDA a : a.name # "deprecated")
DepEdits(x, pre, path, cell) ==
  IF ~IsDep(x) THEN {Edit([x EXCEPT !.dirs = ToTop(@, Deprecated(r))], Eff(pre \o "_DEPRECATION_ADDED", D, path, <<>>), cell \o <<"dep">>) : r \in REASONS \union {""}}
  ELSE {Edit([x EXCEPT !.dirs = Undep(x)], Eff(pre \o "_DEPRECATION_REMOVED", D, path, <<>>), cell \o <<"dep">>)}
    \union {Edit([x EXCEPT !.dirs = ToTop(Undep(x), Deprecated(r))],
                 IF r # "" /\ Reason(x) # <<>> THEN Eff(pre \o "_DEPRECATION_REASON_CHANGED", N, path, <<>>) ELSE <<>>, cell \o <<"dep">>)
            : r \in {q \in REASONS \union {""} : q # (IF Reason(x) = <<>> THEN "" ELSE Reason(x)[1].val)}}

(* applications of other directives; x is a type or a field *)
AppEdits(x, owner, cell) ==
  LET at(a) == "@" \o a.name
      here == cell \o <<"apps">>
      put(i, a) == [x EXCEPT !.dirs = Put(@, i, a)]
      single(i) == x.dirs[i].name # "deprecated" /\ Len(AppsNamed(x.dirs, x.dirs[i].name)) = 1
  IN {Edit([x EXCEPT !.dirs = Append(@, App("fresh", <<>>))], Eff("DIRECTIVE_ADDED", N, owner, <<"@fresh">>), here)}
     \union UNION {LET a == x.dirs[i] IN
          {Edit([x EXCEPT !.dirs = Del(@, i)], Eff("DIRECTIVE_REMOVED", D, owner, <<at(a)>>), here),
           Edit(put(i, [a EXCEPT !.args = Append(@, AppArg("more", "1"))]),
                Eff("DIRECTIVE_ARGUMENT_ADDED", N, owner \o "." \o at(a), <<at(a), "more", owner>>), here)}
          \union {Edit(put(i, [a EXCEPT !.args = Del(@, j)]),
                       Eff("DIRECTIVE_ARGUMENT_REMOVED", D, at(a) \o "." \o a.args[j].name, <<at(a), a.args[j].name, owner>>), here) : j \in DOMAIN a.args}
          \union {Edit(put(i, [a EXCEPT !.args = Put(@, j, AppArg(a.args[j].name, v))]),
                       Eff("DIRECTIVE_ARGUMENT_VALUE_CHANGED", D, at(a) \o "." \o a.args[j].name, <<at(a), a.args[j].name, owner>>), here)
                  : <<j, v>> \in {p \in (DOMAIN a.args) \X APPVALS : p[2] # a.args[p[1]].val}}
          : i \in {i \in DOMAIN x.dirs : single(i)}}
     \union (* one of several applications of a repeatable directive: it no longer occurs as it was *)
        UNION {LET a == x.dirs[i] IN
          {Edit([x EXCEPT !.dirs = Put(@, i, [a EXCEPT !.args = Append(@, AppArg("more", "1"))])], Eff("DIRECTIVE_CHANGED", D, owner, <<at(a)>>), here)}
          : i \in {i \in DOMAIN x.dirs : x.dirs[i].name # "deprecated" /\ Len(AppsNamed(x.dirs, x.dirs[i].name)) > 1
                     /\ \A j \in DOMAIN x.dirs : j # i /\ x.dirs[j].name = x.dirs[i].name => ~SameArgs(x.dirs[i], x.dirs[j])}}

(* type and default of an input value; c names the kinds of change *)
InputEdits(a, c, path, cell) ==
  {Edit([a EXCEPT !.type = t], Eff(c.type, IF Accepts(a.type, t) THEN N ELSE B, path, <<>>), cell \o <<"value">>) : t \in INTYPES \ {a.type}}
  \union {Edit([a EXCEPT !.def = d], Eff(c.def, IF d = NIL /\ "null" \notin Members(a.type) THEN B ELSE D, path, <<>>), cell \o <<"value">>)
          : d \in (DEFAULTS \union {NIL}) \ {a.def}}
  \union DescEdits(a, c.desc, path, cell)

FieldArg == [type |-> "FIELD_ARGUMENT_TYPE_CHANGED", def |-> "FIELD_ARGUMENT_DEFAULT_CHANGED", desc |-> "FIELD_ARGUMENT_DESCRIPTION_CHANGED"]
InputField == [type |-> "INPUT_FIELD_TYPE_CHANGED", def |-> "INPUT_FIELD_DEFAULT_VALUE_CHANGED", desc |-> "INPUT_FIELD_DESCRIPTION_CHANGED"]
DirArg == [type |-> "DIRECTIVE_ARGUMENT_TYPE_CHANGED", def |-> "DIRECTIVE_ARGUMENT_DEFAULT_VALUE_CHANGED", desc |-> "DIRECTIVE_ARGUMENT_DESCRIPTION_CHANGED"]

(* new input values: optional, required, required with default *)
NewInputs == {<<T("Int"), NIL>>, <<Ls(Nn(T("Int"))), NIL>>, <<Nn(T("Int")), NIL>>, <<Nn(T("Int")), "7">>}
GradeNew(t, optional) == IF t.nn THEN B ELSE optional

FieldEdits(o, f) ==
  LET p == o.name \o "." \o f.name  cell == <<f.name>>
      parg(a) == p \o "." \o a.name IN
  {Edit([f EXCEPT !.type = t], Eff("FIELD_TYPE_CHANGED", IF Produces(f.type, t) THEN N ELSE B, p, <<>>), cell \o <<"type">>) : t \in OUTTYPES \ {f.type}}
  \union DescEdits(f, "FIELD_DESCRIPTION_CHANGED", p, cell)
  \union DepEdits(f, "FIELD", p, cell)
  \union AppEdits(f, p, cell)
  \union {Edit([f EXCEPT !.args = Append(@, Arg("new", t[1], t[2]))], Eff("FIELD_ARGUMENT_ADDED", GradeNew(t[1], D), p \o ".new", <<>>), cell \o <<"args", "new">>) : t \in NewInputs}
  \union {Edit([f EXCEPT !.args = Del(@, i)], Eff("FIELD_ARGUMENT_REMOVED", B, parg(f.args[i]), <<>>), cell \o <<"args", f.args[i].name>>) : i \in DOMAIN f.args}
  \union Within(InList(f.args, LAMBDA a : InputEdits(a, FieldArg, parg(a), cell \o <<"args", a.name>>)), LAMBDA y : [f EXCEPT !.args = y])
  \union Within(Reordered(f.args, cell \o <<"args">>), LAMBDA y : [f EXCEPT !.args = y])

InputFieldEdits(o, f) ==
  LET p == o.name \o "." \o f.name  cell == <<f.name>> IN
  InputEdits(f, InputField, p, cell) \union DepEdits(f, "INPUT_FIELD", p, cell) \union AppEdits(f, p, cell)

ValueEdits(o, v) ==
  LET p == o.name \o "." \o v.name  cell == <<v.name>> IN
  DescEdits(v, "ENUM_VALUE_DESCRIPTION_CHANGED", p, cell) \union DepEdits(v, "ENUM_VALUE", p, cell)

(* edits inside a type, or inside one extension block; d is that block     *)
BodyEdits(d) ==
  LET nm == d.name IN
  (CASE d.kind \in {"OBJECT", "INTERFACE"} ->
     Within(InList(d.fields, LAMBDA f : FieldEdits(d, f)), LAMBDA y : [d EXCEPT !.fields = y])
     \union {Edit([d EXCEPT !.fields = Del(@, i)], Eff("FIELD_REMOVED", B, nm \o "." \o d.fields[i].name, <<>>), <<d.fields[i].name>>) : i \in {i \in DOMAIN d.fields : Len(d.fields) > 1}}
     \union {Edit([d EXCEPT !.fields = Append(@, Fld("new", t))], Eff("FIELD_ADDED", N, nm \o ".new", <<>>), <<"new">>) : t \in OUTTYPES}
     \union Within(Reordered(d.fields, <<>>), LAMBDA y : [d EXCEPT !.fields = y])
     \union AppEdits(d, nm, <<"@">>)
   [] d.kind = "INPUT_OBJECT" ->
     Within(InList(d.fields, LAMBDA f : InputFieldEdits(d, f)), LAMBDA y : [d EXCEPT !.fields = y])
     \union {Edit([d EXCEPT !.fields = Del(@, i)], Eff("INPUT_FIELD_REMOVED", B, nm \o "." \o d.fields[i].name, <<>>), <<d.fields[i].name>>) : i \in {i \in DOMAIN d.fields : Len(d.fields) > 1}}
     \union {Edit([d EXCEPT !.fields = Append(@, [Fld("new", t[1]) EXCEPT !.def = t[2]])], Eff("INPUT_FIELD_ADDED", GradeNew(t[1], D), nm \o ".new", <<>>), <<"new">>) : t \in NewInputs}
     \union Within(Reordered(d.fields, <<>>), LAMBDA y : [d EXCEPT !.fields = y])
   [] d.kind = "ENUM" ->
     Within(InList(d.values, LAMBDA v : ValueEdits(d, v)), LAMBDA y : [d EXCEPT !.values = y])
     \union {Edit([d EXCEPT !.values = Del(@, i)], Eff("ENUM_VALUE_REMOVED", B, nm \o "." \o d.values[i].name, <<>>), <<d.values[i].name>>) : i \in {i \in DOMAIN d.values : Len(d.values) > 1}}
     \union {Edit([d EXCEPT !.values = Append(@, Val("NEW"))], Eff("ENUM_VALUE_ADDED", D, nm \o ".NEW", <<>>), <<"NEW">>)}
     \union Within(Reordered(d.values, <<>>), LAMBDA y : [d EXCEPT !.values = y])
   [] d.kind = "UNION" ->
     {Edit([d EXCEPT !.members = Del(@, i)], Eff("UNION_MEMBER_REMOVED", B, nm, <<d.members[i]>>), <<d.members[i]>>) : i \in {i \in DOMAIN d.members : Len(d.members) > 1}}
     \union {Edit([d EXCEPT !.members = Append(@, "New")], Eff("UNION_MEMBER_ADDED", D, nm, <<"New">>), <<"New">>)}
     \union Within(Reordered(d.members, <<>>), LAMBDA y : [d EXCEPT !.members = y])
   [] OTHER -> {})
  \union (IF d.kind # "OBJECT" THEN {} ELSE
     {Edit([d EXCEPT !.ifaces = Del(@, i)], Eff("OBJECT_TYPE_INTERFACE_REMOVED", B, nm, <<d.ifaces[i]>>), <<"&", d.ifaces[i]>>) : i \in DOMAIN d.ifaces}
     \union {Edit([d EXCEPT !.ifaces = Append(@, "New")], Eff("OBJECT_TYPE_INTERFACE_ADDED", D, nm, <<"New">>), <<"&", "New">>)}
     \union Within(Reordered(d.ifaces, <<"&">>), LAMBDA y : [d EXCEPT !.ifaces = y]))

(* what the members of a type of another kind would be *)
AsKind(d, k) ==
  LET e == [Def(k, d.name) EXCEPT !.desc = d.desc] IN
  CASE k \in {"OBJECT", "INTERFACE", "INPUT_OBJECT"} /\ d.kind \in {"OBJECT", "INTERFACE"} -> [e EXCEPT !.fields = MapSeq(d.fields, LAMBDA f : Fld(f.name, f.type))]
    [] k \in {"OBJECT", "INTERFACE"} -> [e EXCEPT !.fields = <<Fld("a", T("Int"))>>]
    [] k = "INPUT_OBJECT" -> [e EXCEPT !.fields = <<Fld("a", Nn(T("Int")))>>]
    [] k = "ENUM" -> [e EXCEPT !.values = <<Val("A")>>]
    [] k = "UNION" -> [e EXCEPT !.members = <<"A">>]
    [] OTHER -> e

ForAll(cells, es) == {[e EXCEPT !.cell = cells \o @] : e \in es}

DefEdits(d) ==
  ForAll(<<"def", d.name>>,
    BodyEdits(d)
    \union DescEdits(d, "TYPE_DESCRIPTION_CHANGED", d.name, <<>>)
    \union {Edit(AsKind(d, k), Eff("TYPE_KIND_CHANGED", B, d.name, <<>>), <<>>) : k \in KINDS \ {d.kind}})

(* Extensions: one block at a time; cells speak of the extension as a whole *)
ExtEdits(e) == ForAll(<<"ext", e.name>>, BodyEdits(e))
Alone(exts, i) == \A j \in DOMAIN exts : j # i => exts[j].name # exts[i].name

First(s) == IF s = <<>> THEN s ELSE <<Head(s)>>
Rest(s) == IF s = <<>> THEN s ELSE Tail(s)
Halves(e) == {<<[e EXCEPT !.fields = First(@), !.values = First(@), !.members = First(@)],
                [e EXCEPT !.fields = Rest(@), !.values = Rest(@), !.members = Rest(@), !.dirs = <<>>, !.ifaces = <<>>]>>}

NewParts(k, nm, required) ==
  CASE k \in {"OBJECT", "INTERFACE"} -> [Def(k, nm) EXCEPT !.fields = <<Fld("ext", Nn(T("Int")))>>]
    [] k = "INPUT_OBJECT" -> [Def(k, nm) EXCEPT !.fields = <<Fld("ext", IF required THEN Nn(T("Int")) ELSE T("Int"))>>]
    [] k = "ENUM" -> [Def(k, nm) EXCEPT !.values = <<Val("EXT")>>]
    [] k = "UNION" -> [Def(k, nm) EXCEPT !.members = <<"Ext">>]
    [] OTHER -> [Def(k, nm) EXCEPT !.dirs = <<App("ext", <<>>)>>]

TypeEdits(s) ==
  Within(InList(s.defs, DefEdits), LAMBDA y : [s EXCEPT !.defs = y])
  \union {Edit([s EXCEPT !.defs = Del(@, i)], Eff("TYPE_REMOVED", B, s.defs[i].name, <<"def">>), <<"def", s.defs[i].name>>) : i \in {i \in DOMAIN s.defs : ~Has(s.exts, s.defs[i].name)}}
  \union {Edit([s EXCEPT !.defs = Del(@, i)], Eff("TYPE_REMOVED", B, s.defs[i].name, <<"def">>), <<"def", s.defs[i].name>>) : i \in {i \in DOMAIN s.defs : Has(s.exts, s.defs[i].name)}}
  \union {Edit([s EXCEPT !.defs = ToTop(@, NewParts(k, "NewType", TRUE))], Eff("TYPE_ADDED", N, "NewType", <<"def">>), <<"def", "NewType">>) : k \in KINDS}
  \union Within(Reordered(s.defs, <<"def">>), LAMBDA y : [s EXCEPT !.defs = y])
  \union Within(InList(s.exts, ExtEdits), LAMBDA y : [s EXCEPT !.exts = y])
  \union {Edit([s EXCEPT !.exts = Del(@, i)], Eff("TYPE_REMOVED", B, s.exts[i].name, <<"ext">>), <<"ext", s.exts[i].name>>) : i \in {i \in DOMAIN s.exts : Alone(s.exts, i)}}
  \union UNION {{Edit([s EXCEPT !.exts = Append(@, NewParts(s.defs[i].kind, s.defs[i].name, r))],
                  Eff("TYPE_ADDED", IF r THEN B ELSE N, s.defs[i].name, <<"ext">>), <<"ext", s.defs[i].name>>)
                 : r \in (IF s.defs[i].kind = "INPUT_OBJECT" THEN BOOLEAN ELSE {FALSE})} : i \in {i \in DOMAIN s.defs : ~Has(s.exts, s.defs[i].name)}}
  \union UNION {{Edit([s EXCEPT !.defs = Append(@, NewParts(s.exts[i].kind, s.exts[i].name, r))],
                  Eff("TYPE_ADDED", IF r THEN B ELSE N, s.exts[i].name, <<"def">>), <<"def", s.exts[i].name>>)
                 : r \in (IF s.exts[i].kind = "INPUT_OBJECT" THEN BOOLEAN ELSE {FALSE})} : i \in {i \in DOMAIN s.exts : ~Has(s.defs, s.exts[i].name)}}
  \union UNION {{Edit([s EXCEPT !.exts = SubSeq(@, 1, i - 1) \o h \o SubSeq(@, i + 1, Len(@))], <<>>, <<"ext", s.exts[i].name, "split">>) : h \in Halves(s.exts[i])}
                : i \in {i \in DOMAIN s.exts : Len(s.exts[i].fields) + Len(s.exts[i].values) + Len(s.exts[i].members) > 1}}
  \union Within(Reordered(s.exts, <<"ext">>), LAMBDA y : [s EXCEPT !.exts = y])

DirectiveEdits(d) ==
  LET at == "@" \o d.name  p(a) == at \o "." \o a.name IN
  ForAll(<<"dir", d.name>>,
    DescEdits(d, "DIRECTIVE_DESCRIPTION_CHANGED", at, <<>>)
    \union {Edit([d EXCEPT !.rep = ~@], IF d.rep THEN Eff("DIRECTIVE_REPEATABLE_REMOVED", B, at, <<>>) ELSE Eff("DIRECTIVE_REPEATABLE_ADDED", N, at, <<>>), <<"rep">>)}
    \union {Edit([d EXCEPT !.locs = Append(@, l)], Eff("DIRECTIVE_LOCATION_ADDED", N, at, <<l>>), <<"on", l>>) : l \in {l \in NEWLOCS : ~Contains(d.locs, l)}}
    \union {Edit([d EXCEPT !.locs = Del(@, i)], Eff("DIRECTIVE_LOCATION_REMOVED", B, at, <<d.locs[i]>>), <<"on", d.locs[i]>>) : i \in {i \in DOMAIN d.locs : Len(d.locs) > 1}}
    \union Within(Reordered(d.locs, <<"on">>), LAMBDA y : [d EXCEPT !.locs = y])
    \union {Edit([d EXCEPT !.args = Append(@, Arg("new", t[1], t[2]))], Eff("DIRECTIVE_ARGUMENT_ADDED", GradeNew(t[1], N), at \o ".new", <<>>), <<"new">>) : t \in NewInputs}
    \union {Edit([d EXCEPT !.args = Del(@, i)], Eff("DIRECTIVE_ARGUMENT_REMOVED", B, p(d.args[i]), <<>>), <<d.args[i].name>>) : i \in DOMAIN d.args}
    \union Within(InList(d.args, LAMBDA a : InputEdits(a, DirArg, p(a), <<a.name>>)), LAMBDA y : [d EXCEPT !.args = y])
    \union Within(Reordered(d.args, <<>>), LAMBDA y : [d EXCEPT !.args = y]))

DirectivesEdits(s) ==
  Within(InList(s.dirs, DirectiveEdits), LAMBDA y : [s EXCEPT !.dirs = y])
  \union {Edit([s EXCEPT !.dirs = Del(@, i)], Eff("DIRECTIVE_REMOVED", B, "@" \o s.dirs[i].name, <<"@" \o s.dirs[i].name>>), <<"dir", s.dirs[i].name>>) : i \in DOMAIN s.dirs}
  \union {Edit([s EXCEPT !.dirs = ToTop(@, DirDef("newdir", <<Arg("a", Nn(T("Int")), NIL)>>, <<"FIELD">>))], Eff("DIRECTIVE_ADDED", N, "@newdir", <<"@newdir">>), <<"dir", "newdir">>)}
  \union Within(Reordered(s.dirs, <<"dir">>), LAMBDA y : [s EXCEPT !.dirs = y])

RootCt(op) == CASE op = "query" -> "SCHEMA_QUERY_TYPE_CHANGED" [] op = "mutation" -> "SCHEMA_MUTATION_TYPE_CHANGED" [] op = "subscription" -> "SCHEMA_SUBSCRIPTION_TYPE_CHANGED"
(* edits of the operations of one block; elsewhere are operations other blocks of the same sort have *)
BlockEdits(b, cell, elsewhere) ==
  {Edit([b EXCEPT !.ops = Del(@, i)], Eff(RootCt(b.ops[i].op), B, "", <<b.ops[i].op>>), cell \o <<b.ops[i].op>>) : i \in {i \in DOMAIN b.ops : Len(b.ops) > 1}}
  \union {Edit([b EXCEPT !.ops = ToTop(@, Op(o, "Root"))], Eff(RootCt(o), N, "", <<o>>), cell \o <<o>>) : o \in {o \in OPNAMES : (\A i \in DOMAIN b.ops : b.ops[i].op # o) /\ o \notin elsewhere}}
  \union {Edit([b EXCEPT !.ops = Put(@, i, Op(b.ops[i].op, "Other"))], Eff(RootCt(b.ops[i].op), B, "", <<b.ops[i].type, "Other">>), cell \o <<b.ops[i].op>>) : i \in DOMAIN b.ops}
  \union Within(Reordered(b.ops, cell), LAMBDA y : [b EXCEPT !.ops = y])
Others(bs, i) == UNION {{bs[j].ops[k].op : k \in DOMAIN bs[j].ops} : j \in (DOMAIN bs) \ {i}}

SchemaEdits(s) ==
  UNION {{[e EXCEPT !.x = [s EXCEPT !.schema = Put(@, i, e.x)]] : e \in BlockEdits(s.schema[i], <<"schema">>, Others(s.schema, i))} : i \in DOMAIN s.schema}
  \union UNION {{[e EXCEPT !.x = [s EXCEPT !.schemaExt = Put(@, i, e.x)]] : e \in BlockEdits(s.schemaExt[i], <<"schemaext">>, Others(s.schemaExt, i))} : i \in DOMAIN s.schemaExt}
  \union {Edit([s EXCEPT !.schemaExt = <<Block(<<Op("subscription", "Sub")>>)>>], Eff(RootCt("subscription"), N, "", <<"subscription">>), <<"schemaext">>) : x \in {y \in {1} : s.schemaExt = <<>>}}
  \union {Edit([s EXCEPT !.schemaExt = Del(@, i)], FlatMap(s.schemaExt[i].ops, LAMBDA o : Eff(RootCt(o.op), B, "", <<o.op>>)), <<"schemaext">>) : i \in DOMAIN s.schemaExt}
  \union Within(Reordered(s.schemaExt, <<"schemaext">>), LAMBDA y : [s EXCEPT !.schemaExt = y])
  (* spelling out the roots the default names give changes nothing *)
  \union {Edit([s EXCEPT !.schema = <<Block(MapSeq(DefaultOps(s), LAMBDA o : Op(o.op, o.type)))>>], <<>>, <<"schema">>) : x \in {y \in {1} : s.schema = <<>> /\ DefaultOps(s) # <<>>}}

Edits(s) == TypeEdits(s) \union DirectivesEdits(s) \union SchemaEdits(s)

-----------------------------------------------------------------------------
CONSTANT DEPTH
VARIABLES old, new,
          steps,    \* number of edits made
          cells,    \* what they touched
          eff,      \* the effects of the edits made
          apart     \* did they all touch different things?
vars == <<old, new, steps, cells, eff, apart>>

Begin(base) == old = base /\ new = base /\ steps = 0 /\ cells = {} /\ eff = <<>> /\ apart = TRUE

Prefix(c, d) == Len(c) <= Len(d) /\ SubSeq(d, 1, Len(c)) = c
(* orders and divisions do not interfere with anything, roots given by default names do with types *)
Neutral(c) == Len(c) > 0 /\ c[Len(c)] \in {"order", "split"}
SameName(c, d) == Len(c) = 2 /\ Len(d) = 2 /\ {c[1], d[1]} = {"def", "ext"} /\ c[2] = d[2]
Interferes(c, d) == ~Neutral(c) /\ ~Neutral(d) /\ (Prefix(c, d) \/ Prefix(d, c) \/ SameName(c, d) \/ (c[1] = "schema" /\ d[1] \in {"def", "ext"}) \/ (d[1] = "schema" /\ c[1] \in {"def", "ext"}))

Evolve ==
  /\ steps < DEPTH
  /\ \E e \in Edits(new) :
     /\ WellFormed(e.x)        \* nothing is added twice
     /\ new' = e.x
     /\ apart' = (apart /\ \A c \in cells : ~Interferes(c, e.cell))
     /\ eff' = IF apart' THEN eff \o e.eff ELSE <<>>
     /\ cells' = IF apart' THEN cells \union {e.cell} ELSE {}
  /\ steps' = steps + 1 /\ UNCHANGED old

-----------------------------------------------------------------------------
(* What holds for the report r of a version and the report q of going back *)

(* C07: the report is the union of the effects *)
ReportIsUnionOfEffects(r) == apart => SameBag(Keys(r), eff)
(* C01, and nothing goes unnoticed *)
NoDifferenceNoChange(r, q) == HoldsC01(old, new, r, q)
NoChangeNoEffect(r, q) == apart /\ r = <<>> /\ q = <<>> => eff = <<>>
(* C02, C05 *)
RemovalsBreak(r) == \A i \in DOMAIN r : r[i].cls = "removal" => r[i].crit = B
AltersAreDangerous(r) == \A i \in DOMAIN r : Altering(r[i]) => r[i].crit = D \/ r[i].cls = "nowrequired"
(* C06 *)
AdditionsPass(r) == (\A i \in DOMAIN r : r[i].cls = "additive" /\ r[i].ct # "TYPE_ADDED") => \A i \in DOMAIN r : r[i].crit = N
(* C08 *)
NotBreakingIsSafe(r, q) == HoldsC08(old, new, r) /\ HoldsC08(new, old, q)
(* C10 *)
Mirrors(r, q) == HoldsC10(r, q)

Must(name, holds) == IF holds THEN TRUE ELSE PrintT(<<"FAILS", name>>) /\ FALSE
ReportsAreRight ==
  \E r \in {Changes(old, new)} : \E q \in {Changes(new, old)} :
    /\ Must("ReportIsUnionOfEffects", ReportIsUnionOfEffects(r))
    /\ Must("NoDifferenceNoChange", NoDifferenceNoChange(r, q))
    /\ Must("NoChangeNoEffect", NoChangeNoEffect(r, q))
    /\ Must("RemovalsBreak", RemovalsBreak(r) /\ RemovalsBreak(q))
    /\ Must("AltersAreDangerous", AltersAreDangerous(r) /\ AltersAreDangerous(q))
    /\ Must("AdditionsPass", AdditionsPass(r) /\ AdditionsPass(q))
    /\ Must("NotBreakingIsSafe", NotBreakingIsSafe(r, q))
    /\ Must("Mirrors", Mirrors(r, q))
=============================================================================
