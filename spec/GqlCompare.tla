----------------------------- MODULE GqlCompare -----------------------------
(***************************************************************************)
(* What `gql compare` must report for a pair of schemas.                   *)
(*                                                                         *)
(* A schema document is a record                                           *)
(*   [schema, schemaExt : Seq(SchemaBlock), dirs : Seq(DirectiveDef),      *)
(*    defs, exts : Seq(TypeDef)]                                           *)
(* in the shape the driver projects from the parser's syntax tree (JSON).  *)
(* Every named thing carries `pos`, which this module only passes on.      *)
(* Optional default values are strings, "<nil>" meaning "none" (a string   *)
(* default is quoted, so there is no ambiguity).                           *)
(*                                                                         *)
(* Changes(old, new) is a sequence read as a bag of records                *)
(*   [ct, crit, path, msg, toks, pos, cls]                                 *)
(* cls is the documentation category the change belongs to; toks are the   *)
(* quoted names in the message.                                            *)
(***************************************************************************)
EXTENDS Naturals, Sequences, SequencesExt, FiniteSets

NIL == "<nil>"
B == "Breaking"
D == "Dangerous"
N == "NonBreaking"

-----------------------------------------------------------------------------
(* Sequences of named records *)

Has(s, name) == \E i \in DOMAIN s : s[i].name = name
Get(s, name) == s[CHOOSE i \in DOMAIN s : /\ s[i].name = name
                                          /\ \A j \in 1..(i-1) : s[j].name # name]
Missing(s, t) == SelectSeq(s, LAMBDA x : ~Has(t, x.name))   \* in s, not in t
Shared(s, t)  == SelectSeq(s, LAMBDA x : Has(t, x.name))    \* in both, as in s
FlatMap(s, F(_)) == FlattenSeq([i \in DOMAIN s |-> F(s[i])])
When(c, s) == IF c THEN s ELSE <<>>
MissingStr(s, t) == SelectSeq(s, LAMBDA x : ~Contains(t, x))

-----------------------------------------------------------------------------
(* Type references: [nn, list, name, elem] with elem = <<>> or <<T>> *)

RECURSIVE TypeStr(_)
TypeStr(t) == (IF t.list THEN "[" \o TypeStr(t.elem[1]) \o "]" ELSE t.name)
              \o (IF t.nn THEN "!" ELSE "")

(* Every value of type n is a value of type o. *)
RECURSIVE Covariant(_, _)
Covariant(o, n) == /\ o.nn => n.nn
                   /\ o.list = n.list
                   /\ IF o.list THEN Covariant(o.elem[1], n.elem[1]) ELSE o.name = n.name

OutputSafe(o, n) == Covariant(o, n)    \* what is produced stays within the old type
InputSafe(o, n)  == Covariant(n, o)    \* what was accepted is still accepted

-----------------------------------------------------------------------------
(* A change. parts alternates plain text and quoted names, starting with   *)
(* plain text.                                                             *)

RECURSIVE Join(_, _)
Join(parts, quoted) == IF parts = <<>> THEN ""
                       ELSE (IF quoted THEN "'" \o Head(parts) \o "'" ELSE Head(parts))
                            \o Join(Tail(parts), ~quoted)
Toks(parts) == [i \in 1..(Len(parts) \div 2) |-> parts[2*i]]

Ch(ct, crit, path, parts, pos, cls) ==
  << [ct |-> ct, crit |-> crit, path |-> path, msg |-> Join(parts, FALSE),
      toks |-> Toks(parts), pos |-> pos, cls |-> cls] >>

-----------------------------------------------------------------------------
(* Root operations *)

OPS == << [op |-> "query", ct |-> "SCHEMA_QUERY_TYPE_CHANGED", dflt |-> "Query"],
          [op |-> "mutation", ct |-> "SCHEMA_MUTATION_TYPE_CHANGED", dflt |-> "Mutation"],
          [op |-> "subscription", ct |-> "SCHEMA_SUBSCRIPTION_TYPE_CHANGED", dflt |-> "Subscription"] >>

(* All operation types of a list of schema blocks. *)
BlockOps(blocks) == FlatMap(blocks, LAMBDA b : b.ops)

(* Without a schema block the root types are those with the default names. *)
DefaultOps(s) ==
  FlatMap(OPS, LAMBDA o :
    IF Has(s.defs, o.dflt) THEN << [op |-> o.op, type |-> o.dflt, pos |-> Get(s.defs, o.dflt).pos] >>
    ELSE IF Has(s.exts, o.dflt) THEN << [op |-> o.op, type |-> o.dflt, pos |-> Get(s.exts, o.dflt).pos] >>
    ELSE <<>>)

(* The default names only matter if the other side spells its roots out.   *)
BaseOps(s, other) == IF s.schema = <<>> /\ other.schema # <<>> THEN DefaultOps(s) ELSE BlockOps(s.schema)

RootChanges(oOps, nOps) ==
  LET find(ops, op) == SelectSeq(ops, LAMBDA x : x.op = op)
      one(d) == LET o == find(oOps, d.op)  n == find(nOps, d.op) IN
        CASE o = <<>> /\ n # <<>> ->
               Ch(d.ct, N, "", <<"Schema " \o d.op \o " root has added ", d.op>>, n[1].pos, "additive")
          [] o # <<>> /\ n = <<>> ->
               Ch(d.ct, B, "", <<"Schema " \o d.op \o " root has removed ", d.op>>, o[1].pos, "removal")
          [] o # <<>> /\ n # <<>> /\ o[1].type # n[1].type ->
               Ch(d.ct, B, "", <<"Schema " \o d.op \o " root has changed from ", o[1].type, " to ", n[1].type>>,
                  n[1].pos, "removal")
          [] OTHER -> <<>>
  IN FlatMap(OPS, one)

-----------------------------------------------------------------------------
(* Input values: field arguments, input fields, directive arguments *)

(* A non-null input value that loses its default becomes required. *)
DefaultCrit(n) == IF n.type.nn /\ n.def = NIL THEN B ELSE D
DefaultCls(n) == IF n.type.nn /\ n.def = NIL THEN "nowrequired" ELSE "dangerous"

-----------------------------------------------------------------------------
(* Deprecation (first @deprecated application counts) *)

Dep(x) == SelectSeq(x.dirs, LAMBDA a : a.name = "deprecated")
IsDep(x) == Dep(x) # <<>>
Reason(x) == SelectSeq(Dep(x)[1].args, LAMBDA a : a.name = "reason")
ReasonChanged(o, n) == /\ IsDep(o) /\ IsDep(n)
                       /\ Reason(o) # <<>> /\ Reason(n) # <<>>
                       /\ Reason(o)[1].val # Reason(n)[1].val

-----------------------------------------------------------------------------
(* Directive applications on objects, interfaces, fields, input fields *)

AppsNamed(apps, name) == SelectSeq(apps, LAMBDA a : a.name = name)

SameArgs(a, b) == /\ Len(a.args) = Len(b.args)
                  /\ \A i \in DOMAIN a.args : \E j \in DOMAIN b.args :
                        b.args[j].name = a.args[i].name /\ b.args[j].val = a.args[i].val

AppChanges(oApps, nApps, owner, pos) ==
  LET real(apps) == SelectSeq(apps, LAMBDA a : a.name # "deprecated")
      at(a) == "@" \o a.name
      argChanges(o, n) ==
        FlatMap(o.args, LAMBDA x :
          IF ~Has(n.args, x.name) THEN
            Ch("DIRECTIVE_ARGUMENT_REMOVED", D, at(o) \o "." \o x.name,
               <<"Directive ", at(o), " argument ", x.name, " was removed in ", owner>>, pos, "dangerous")
          ELSE LET y == Get(n.args, x.name) IN
            When(x.val # y.val,
              Ch("DIRECTIVE_ARGUMENT_VALUE_CHANGED", D, at(o) \o "." \o x.name,
                 <<"Directive ", at(o), " argument ", x.name, " value changed from ", x.val, " to ", y.val, " in ", owner>>,
                 y.pos, "dangerous")))
        \o FlatMap(Missing(n.args, o.args), LAMBDA y :
             Ch("DIRECTIVE_ARGUMENT_ADDED", N, owner \o "." \o at(o),
                <<"Directive ", at(n), " argument ", y.name, " was added to in ", owner>>, y.pos, "additive"))
      old(a) ==
        LET os == AppsNamed(oApps, a.name)  ns == AppsNamed(nApps, a.name) IN
        CASE ns = <<>> ->
               Ch("DIRECTIVE_REMOVED", D, owner, <<"Directive ", at(a), " was removed from ", owner>>, pos, "dangerous")
          [] Len(os) = 1 /\ Len(ns) = 1 -> argChanges(a, ns[1])
          [] OTHER -> When(\A i \in DOMAIN ns : ~SameArgs(a, ns[i]),
               Ch("DIRECTIVE_CHANGED", D, owner, <<"Directive ", at(a), " was changed on ", owner>>, pos, "dangerous"))
  IN FlatMap(real(oApps), old)
     \o FlatMap(Missing(real(nApps), oApps), LAMBDA a :
          Ch("DIRECTIVE_ADDED", N, owner, <<"Directive ", at(a), " was added in ", owner>>, a.pos, "additive"))

-----------------------------------------------------------------------------
(* Fields of objects and interfaces *)

ArgChanges(tn, of, nf) ==
  LET p(a) == tn \o "." \o of.name \o "." \o a.name
      fn == tn \o "." \o of.name
      kept(a) == LET b == Get(nf.args, a.name) IN
        When(TypeStr(a.type) # TypeStr(b.type),
          Ch("FIELD_ARGUMENT_TYPE_CHANGED", IF InputSafe(a.type, b.type) THEN N ELSE B, p(a),
             <<"Argument ", a.name, " type changed from ", TypeStr(a.type), " to ", TypeStr(b.type), " in ", fn>>,
             b.pos, "typechange"))
        \o When(a.def # b.def,
          Ch("FIELD_ARGUMENT_DEFAULT_CHANGED", DefaultCrit(b), p(a),
             <<"Argument ", a.name, " default value changed from ", a.def, " to ", b.def, " in ", fn>>,
             b.pos, DefaultCls(b)))
        \o When(a.desc # b.desc,
          Ch("FIELD_ARGUMENT_DESCRIPTION_CHANGED", N, p(a),
             <<"Argument ", a.name, " description changed in ", fn>>, b.pos, "additive"))
  IN FlatMap(Missing(of.args, nf.args), LAMBDA a :
       Ch("FIELD_ARGUMENT_REMOVED", B, p(a),
          <<"Argument ", a.name \o ":" \o TypeStr(a.type), " was removed from field ", fn>>, nf.pos, "removal"))
     \o FlatMap(Shared(of.args, nf.args), kept)
     \o FlatMap(Missing(nf.args, of.args), LAMBDA b :
          IF b.type.nn THEN
            Ch("FIELD_ARGUMENT_ADDED", B, p(b),
               <<"Required argument ", b.name \o ":" \o TypeStr(b.type), " was added to field ", fn>>, b.pos, "addedinput")
          ELSE
            Ch("FIELD_ARGUMENT_ADDED", D, p(b),
               <<"Argument ", b.name \o ":" \o TypeStr(b.type), " was added to field ", fn>>, b.pos, "addedinput"))

(* kind is "OBJECT", "INTERFACE" or "INPUT_OBJECT"; kinds of deprecation   *)
(* changes differ for input fields.                                        *)
DeprecationChanges(o, of, nf) ==
  LET pre == IF o.kind = "INPUT_OBJECT" THEN "INPUT_FIELD" ELSE "FIELD"
      p == o.name \o "." \o of.name
  IN When(~IsDep(of) /\ IsDep(nf),
       Ch(pre \o "_DEPRECATION_ADDED", D, p, <<"Field ", p, " deprecated in " \o o.kind>>, nf.pos, "dangerous"))
     \o When(IsDep(of) /\ ~IsDep(nf),
       Ch(pre \o "_DEPRECATION_REMOVED", D, p, <<"Field ", p, " deprecation removed in " \o o.kind>>, nf.pos, "dangerous"))
     \o When(ReasonChanged(of, nf),
       Ch(pre \o "_DEPRECATION_REASON_CHANGED", N, p, <<"Field ", p, " deprecation reason changed in " \o o.kind>>, nf.pos, "additive"))

FieldChanges(o, n) ==
  LET p(f) == o.name \o "." \o f.name
      kept(f) == LET g == Get(n.fields, f.name) IN
        When(TypeStr(f.type) # TypeStr(g.type),
          Ch("FIELD_TYPE_CHANGED", IF OutputSafe(f.type, g.type) THEN N ELSE B, p(f),
             <<"Field ", p(f), " type changed from ", TypeStr(f.type), " to ", TypeStr(g.type), " in " \o o.kind>>,
             g.pos, "typechange"))
        \o When(f.desc # g.desc,
          Ch("FIELD_DESCRIPTION_CHANGED", N, p(f), <<"Field ", p(f), " description changed in " \o o.kind>>, g.pos, "additive"))
        \o DeprecationChanges(o, f, g)
        \o ArgChanges(o.name, f, g)
        \o AppChanges(f.dirs, g.dirs, p(f), g.pos)
  IN FlatMap(Missing(o.fields, n.fields), LAMBDA f :
       Ch("FIELD_REMOVED", B, p(f),
          <<"Field ", p(f), (IF IsDep(f) THEN "(deprecated)" ELSE "") \o " was removed from " \o o.kind>>, n.pos, "removal"))
     \o FlatMap(Shared(o.fields, n.fields), kept)
     \o FlatMap(Missing(n.fields, o.fields), LAMBDA g :
          Ch("FIELD_ADDED", N, p(g), <<"Field ", p(g), " was added to " \o n.kind>>, g.pos, "additive"))

-----------------------------------------------------------------------------
(* Input objects *)

InputChanges(o, n) ==
  LET p(f) == o.name \o "." \o f.name
      kept(f) == LET g == Get(n.fields, f.name) IN
        When(TypeStr(f.type) # TypeStr(g.type),
          Ch("INPUT_FIELD_TYPE_CHANGED", IF InputSafe(f.type, g.type) THEN N ELSE B, p(f),
             <<"Input field ", p(f), " type changed from ", TypeStr(f.type), " to ", TypeStr(g.type), " in input object type">>,
             g.pos, "typechange"))
        \o When(f.def # g.def,
          Ch("INPUT_FIELD_DEFAULT_VALUE_CHANGED", DefaultCrit(g), p(f),
             <<"Input field ", p(f), " default value changed from ", f.def, " to ", g.def, " in input object type">>,
             g.pos, DefaultCls(g)))
        \o When(f.desc # g.desc,
          Ch("INPUT_FIELD_DESCRIPTION_CHANGED", N, p(f),
             <<"Input field ", p(f), " description changed in input object type">>, g.pos, "additive"))
        \o DeprecationChanges(o, f, g)
        \o AppChanges(f.dirs, g.dirs, p(f), g.pos)
  IN FlatMap(Missing(o.fields, n.fields), LAMBDA f :
       Ch("INPUT_FIELD_REMOVED", B, p(f),
          IF IsDep(f) THEN <<"input field ", p(f), "(deprecated) was removed from input object type">>
                      ELSE <<"Input field ", p(f), " was removed from input object type">>, n.pos, "removal"))
     \o FlatMap(Shared(o.fields, n.fields), kept)
     \o FlatMap(Missing(n.fields, o.fields), LAMBDA g :
          IF g.type.nn THEN
            Ch("INPUT_FIELD_ADDED", B, p(g),
               <<"Required field ", g.name, " was added to input object type ", n.name>>, g.pos, "addedinput")
          ELSE
            Ch("INPUT_FIELD_ADDED", D, p(g),
               <<"Field ", g.name, " was added to input object type ", n.name>>, g.pos, "addedinput"))

-----------------------------------------------------------------------------
(* Enums, unions, interfaces of objects *)

EnumChanges(o, n) ==
  LET p(v) == o.name \o "." \o v.name
      kept(v) == LET w == Get(n.values, v.name) IN
        When(v.desc # w.desc,
          Ch("ENUM_VALUE_DESCRIPTION_CHANGED", N, p(v),
             <<"Enum value ", v.name, " description changed in enum ", o.name>>, w.pos, "additive"))
        \o When(~IsDep(v) /\ IsDep(w),
          Ch("ENUM_VALUE_DEPRECATION_ADDED", D, p(v), <<"Enum value ", v.name, " deprecated in enum ", o.name>>, w.pos, "dangerous"))
        \o When(IsDep(v) /\ ~IsDep(w),
          Ch("ENUM_VALUE_DEPRECATION_REMOVED", D, p(v),
             <<"Enum value ", v.name, " deprecation removed in enum ", o.name>>, w.pos, "dangerous"))
        \o When(ReasonChanged(v, w),
          Ch("ENUM_VALUE_DEPRECATION_REASON_CHANGED", N, p(v),
             <<"Enum value ", v.name, " deprecation reason changed in enum ", o.name>>, w.pos, "additive"))
  IN FlatMap(Missing(o.values, n.values), LAMBDA v :
       Ch("ENUM_VALUE_REMOVED", B, p(v),
          <<"Enum value ", v.name, (IF IsDep(v) THEN "(deprecated)" ELSE "") \o " was removed from enum ", o.name>>,
          v.pos, "removal"))
     \o FlatMap(Shared(o.values, n.values), kept)
     \o FlatMap(Missing(n.values, o.values), LAMBDA w :
          Ch("ENUM_VALUE_ADDED", D, p(w), <<"Enum value ", w.name, " was added to enum ", n.name>>, w.pos, "dangerous"))

UnionChanges(o, n) ==
  FlatMap(MissingStr(o.members, n.members), LAMBDA m :
    Ch("UNION_MEMBER_REMOVED", B, o.name, <<"Member ", m, " was removed from Union type ", o.name>>, n.pos, "removal"))
  \o FlatMap(MissingStr(n.members, o.members), LAMBDA m :
    Ch("UNION_MEMBER_ADDED", D, o.name, <<"Member ", m, " was added to Union type ", n.name>>, n.pos, "dangerous"))

InterfaceChanges(o, n) ==
  FlatMap(MissingStr(o.ifaces, n.ifaces), LAMBDA i :
    Ch("OBJECT_TYPE_INTERFACE_REMOVED", B, o.name, <<"", o.name, " object type no longer implements ", i, " interface">>, n.pos, "removal"))
  \o FlatMap(MissingStr(n.ifaces, o.ifaces), LAMBDA i :
    Ch("OBJECT_TYPE_INTERFACE_ADDED", D, o.name, <<"", n.name, " object type implements ", i, " interface">>, n.pos, "dangerous"))

-----------------------------------------------------------------------------
(* Types *)

TypePairChanges(o, n) ==
  (CASE o.kind # n.kind ->
          Ch("TYPE_KIND_CHANGED", B, n.name,
             <<"Type ", o.name, " kind changed from ", o.kind, " to ", n.kind>>, n.pos, "removal")
     [] o.kind = "ENUM" -> EnumChanges(o, n)
     [] o.kind = "INPUT_OBJECT" -> InputChanges(o, n)
     [] o.kind = "INTERFACE" -> AppChanges(o.dirs, n.dirs, n.name, n.pos) \o FieldChanges(o, n)
     [] o.kind = "OBJECT" -> InterfaceChanges(o, n) \o AppChanges(o.dirs, n.dirs, n.name, n.pos) \o FieldChanges(o, n)
     [] o.kind = "UNION" -> UnionChanges(o, n)
     [] OTHER -> <<>>)      \* scalars have nothing that is compared
  \o When(o.desc # n.desc,
       Ch("TYPE_DESCRIPTION_CHANGED", N, n.name, <<"Type ", o.name, " description changed">>, n.pos, "additive"))

(* An added part (definition or extension) of an input type that exists in *)
(* the other form already must not require anything.                       *)
AddedTypeCrit(n, counterparts) ==
  IF n.kind = "INPUT_OBJECT" /\ Has(counterparts, n.name) /\ \E i \in DOMAIN n.fields : n.fields[i].type.nn THEN B ELSE N

TypeListChanges(os, ns, counterparts, what) ==
  FlatMap(Missing(os, ns), LAMBDA o :
    Ch("TYPE_REMOVED", B, o.name, <<what \o " ", o.name, " was removed">>, o.pos, "removal"))
  \o FlatMap(Missing(ns, os), LAMBDA n :
    Ch("TYPE_ADDED", AddedTypeCrit(n, counterparts), n.name, <<what \o " ", n.name, " was added">>, n.pos, "additive"))
  \o FlatMap(Shared(os, ns), LAMBDA o : TypePairChanges(o, Get(ns, o.name)))

(* All extend blocks of one type act as one extension. *)
MergeExts(exts) ==
  LET firsts == SelectSeq([i \in DOMAIN exts |-> [name |-> exts[i].name, first |-> \A j \in 1..(i-1) : exts[j].name # exts[i].name]],
                          LAMBDA x : x.first)
      merged(nm) ==
        LET bs == SelectSeq(exts, LAMBDA e : e.name = nm) IN
        [kind |-> bs[1].kind, name |-> nm, desc |-> bs[1].desc, pos |-> bs[1].pos,
         dirs |-> FlatMap(bs, LAMBDA e : e.dirs), ifaces |-> FlatMap(bs, LAMBDA e : e.ifaces),
         fields |-> FlatMap(bs, LAMBDA e : e.fields), members |-> FlatMap(bs, LAMBDA e : e.members),
         values |-> FlatMap(bs, LAMBDA e : e.values)]
  IN [i \in DOMAIN firsts |-> merged(firsts[i].name)]

-----------------------------------------------------------------------------
(* Directive definitions *)

DirectiveDefChanges(o, n) ==
  LET at == "@" \o o.name
      p(a) == at \o "." \o a.name
      kept(a) == LET b == Get(n.args, a.name) IN
        When(TypeStr(a.type) # TypeStr(b.type),
          Ch("DIRECTIVE_ARGUMENT_TYPE_CHANGED", IF InputSafe(a.type, b.type) THEN N ELSE B, p(a),
             <<"Argument ", a.name, " type changed from ", TypeStr(a.type), " to ", TypeStr(b.type), " in directive ", at>>,
             b.pos, "typechange"))
        \o When(a.def # b.def,
          Ch("DIRECTIVE_ARGUMENT_DEFAULT_VALUE_CHANGED", DefaultCrit(b), p(a),
             <<"Argument ", a.name, " default value changed from ", a.def, " to ", b.def, " in directive ", at>>,
             b.pos, DefaultCls(b)))
        \o When(a.desc # b.desc,
          Ch("DIRECTIVE_ARGUMENT_DESCRIPTION_CHANGED", N, p(a),
             <<"Argument ", a.name, " description changed in directive ", at>>, b.pos, "additive"))
  IN When(o.desc # n.desc,
       Ch("DIRECTIVE_DESCRIPTION_CHANGED", N, at, <<"Directive ", at, " description changed">>, n.pos, "additive"))
     \o FlatMap(MissingStr(o.locs, n.locs), LAMBDA l :
          Ch("DIRECTIVE_LOCATION_REMOVED", B, at, <<"Location ", l, " was removed from ", at, " directive">>, n.pos, "removal"))
     \o FlatMap(MissingStr(n.locs, o.locs), LAMBDA l :
          Ch("DIRECTIVE_LOCATION_ADDED", N, at, <<"Location ", l, " was added to ", at, " directive">>, n.pos, "additive"))
     \o When(o.rep /\ ~n.rep,
          Ch("DIRECTIVE_REPEATABLE_REMOVED", B, at, <<"Repeatable flag was removed from ", at, " directive">>, n.pos, "removal"))
     \o When(~o.rep /\ n.rep,
          Ch("DIRECTIVE_REPEATABLE_ADDED", N, at, <<"Repeatable flag was added to ", at, " directive">>, n.pos, "additive"))
     \o FlatMap(Missing(o.args, n.args), LAMBDA a :
          Ch("DIRECTIVE_ARGUMENT_REMOVED", B, p(a), <<"Argument ", a.name, " was removed from directive ", at>>, n.pos, "removal"))
     \o FlatMap(Shared(o.args, n.args), kept)
     \o FlatMap(Missing(n.args, o.args), LAMBDA b :
          IF b.type.nn THEN
            Ch("DIRECTIVE_ARGUMENT_ADDED", B, p(b),
               <<"Non-nullable argument ", b.name \o ":" \o TypeStr(b.type), " was added to directive ", at>>, b.pos, "addedinput")
          ELSE
            Ch("DIRECTIVE_ARGUMENT_ADDED", N, p(b),
               <<"Argument ", b.name \o ":" \o TypeStr(b.type), " was added to to directive ", at>>, b.pos, "addedinput"))

DirectiveChanges(os, ns) ==
  FlatMap(Missing(os, ns), LAMBDA o :
    Ch("DIRECTIVE_REMOVED", B, "@" \o o.name, <<"Directive ", "@" \o o.name, " was removed">>, o.pos, "removal"))
  \o FlatMap(Shared(os, ns), LAMBDA o : DirectiveDefChanges(o, Get(ns, o.name)))
  \o FlatMap(Missing(ns, os), LAMBDA n :
    Ch("DIRECTIVE_ADDED", N, "@" \o n.name, <<"Directive ", "@" \o n.name, " was added">>, n.pos, "additive"))

-----------------------------------------------------------------------------
(* The whole report *)

Changes(old, new) ==
  RootChanges(BaseOps(old, new), BaseOps(new, old))
  \o RootChanges(BlockOps(old.schemaExt), BlockOps(new.schemaExt))
  \o TypeListChanges(old.defs, new.defs, old.exts, "Type")
  \o TypeListChanges(MergeExts(old.exts), MergeExts(new.exts), old.defs, "Extended type")
  \o DirectiveChanges(old.dirs, new.dirs)

IsBreaking(chs) == \E i \in DOMAIN chs : chs[i].crit = B

-----------------------------------------------------------------------------
(* Well-formed documents: names unique per scope. The guarantees are       *)
(* stated for these only (everything else is rejected by every GraphQL     *)
(* implementation).                                                        *)

UniqueNames(s) == \A i, j \in DOMAIN s : i # j => s[i].name # s[j].name
UniqueStr(s) == \A i, j \in DOMAIN s : i # j => s[i] # s[j]
WfDef(d) == /\ UniqueNames(d.fields) /\ UniqueNames(d.values) /\ UniqueStr(d.members) /\ UniqueStr(d.ifaces)
            /\ \A i \in DOMAIN d.fields : UniqueNames(d.fields[i].args)
WellFormed(s) ==
  /\ UniqueNames(s.defs) /\ UniqueNames(s.dirs)
  /\ \A i \in DOMAIN s.defs : WfDef(s.defs[i])
  /\ LET m == MergeExts(s.exts) IN \A i \in DOMAIN m : WfDef(m[i])
  /\ \A i, j \in DOMAIN s.exts : s.exts[i].name = s.exts[j].name => s.exts[i].kind = s.exts[j].kind
  /\ \A i \in DOMAIN s.dirs : UniqueNames(s.dirs[i].args) /\ UniqueStr(s.dirs[i].locs)
  /\ \A ops \in {BlockOps(s.schema), BlockOps(s.schemaExt)} :
       \A i, j \in DOMAIN ops : i # j => ops[i].op # ops[j].op

-----------------------------------------------------------------------------
(* Bags *)

CountIn(s, x) == Cardinality({i \in DOMAIN s : s[i] = x})
SameBag(s, t) == /\ Len(s) = Len(t)
                 /\ \A i \in DOMAIN s : CountIn(s, s[i]) = CountIn(t, s[i])
WithinBag(s, t) == \A i \in DOMAIN s : CountIn(s, s[i]) <= CountIn(t, s[i])
MapSeq(s, F(_)) == [i \in DOMAIN s |-> F(s[i])]
=============================================================================
