----------------------------- MODULE LintRules -----------------------------
(***************************************************************************)
(* What each lint rule must report for a schema document (the documents of *)
(* GqlCompare): a sequence, read as a bag, of [rule, l, c, msg, text]      *)
(* where msg is what is printed and text is msg without a repeated         *)
(* position. Fields are located at their type, everything else at itself.  *)
(***************************************************************************)
EXTENDS GqlCompare, TLC

RULES == <<"type-desc", "args-desc", "field-desc", "enum-caps", "enum-desc", "field-camel", "type-caps",
           "relay-conn-type", "relay-conn-args">>

LOWER == {"a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q","r","s","t","u","v","w","x","y","z"}
UPPER == {"A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q","R","S","T","U","V","W","X","Y","Z"}
DIGITS == {"0","1","2","3","4","5","6","7","8","9"}
Char(s, i) == SubSeq(s, i, i)
Suffix(s, p) == Len(s) >= Len(p) /\ SubSeq(s, Len(s) - Len(p) + 1, Len(s)) = p

E(rule, pos, msg) == <<[rule |-> rule, l |-> pos.l, c |-> pos.c, msg |-> msg, text |-> msg]>>
(* The relay rules repeat the position in the message. *)
R(rule, pos, text) == <<[rule |-> rule, l |-> pos.l, c |-> pos.c, text |-> text,
                         msg |-> ToString(pos.l) \o ":" \o ToString(pos.c) \o " " \o text]>>

-----------------------------------------------------------------------------
All(doc) == doc.defs \o doc.exts
Fields(defs, F(_, _)) == FlatMap(defs, LAMBDA d : FlatMap(d.fields, LAMBDA f : F(d, f)))
Values(defs, F(_, _)) == FlatMap(SelectSeq(defs, LAMBDA d : d.kind = "ENUM"), LAMBDA d : FlatMap(d.values, LAMBDA v : F(d, v)))

TypeDesc(doc) == FlatMap(doc.defs, LAMBDA d :
  When(d.desc = "", E("type-desc", d.pos, "type " \o d.name \o " does not have description")))

ArgsDesc(doc) == Fields(All(doc), LAMBDA d, f : FlatMap(f.args, LAMBDA a :
  When(a.desc = "", E("args-desc", a.pos, "argument " \o d.name \o "." \o f.name \o "." \o a.name \o " does not have description"))))

FieldDesc(doc) == Fields(All(doc), LAMBDA d, f :
  When(f.desc = "", E("field-desc", f.tpos, "field " \o d.name \o "." \o f.name \o " does not have description")))

EnumMsg(ext, d, v, what) == (IF ext THEN "extended " ELSE "") \o "enum value " \o d.name \o "." \o v.name \o what
AllCaps(s) == \A i \in 1..Len(s) : Char(s, i) \notin LOWER
EnumCaps(doc) ==
  Values(doc.defs, LAMBDA d, v : When(~AllCaps(v.name), E("enum-caps", v.pos, EnumMsg(FALSE, d, v, " is not uppercase"))))
  \o Values(doc.exts, LAMBDA d, v : When(~AllCaps(v.name), E("enum-caps", v.pos, EnumMsg(TRUE, d, v, " is not uppercase"))))
EnumDesc(doc) ==
  Values(doc.defs, LAMBDA d, v : When(v.desc = "", E("enum-desc", v.pos, EnumMsg(FALSE, d, v, " does not have description"))))
  \o Values(doc.exts, LAMBDA d, v : When(v.desc = "", E("enum-desc", v.pos, EnumMsg(TRUE, d, v, " does not have description"))))

Camel(s) == Char(s, 1) \in LOWER /\ \A i \in 2..Len(s) : Char(s, i) \in LOWER \union UPPER \union DIGITS
FieldCamel(doc) == Fields(All(doc), LAMBDA d, f :
  When(~Camel(f.name), E("field-camel", f.tpos, "field " \o d.name \o "." \o f.name \o " is not camelcased")))

TypeCaps(doc) ==
  FlatMap(doc.defs, LAMBDA d : When(Char(d.name, 1) \in LOWER, E("type-caps", d.pos, "type " \o d.name \o " is not capitalized")))
  \o FlatMap(doc.exts, LAMBDA d : When(Char(d.name, 1) \in LOWER, E("type-caps", d.pos, "extended type " \o d.name \o " is not capitalized")))

-----------------------------------------------------------------------------
(* Relay connections (definitions only) *)

RECURSIVE Innermost(_)
Innermost(t) == IF t.list THEN Innermost(t.elem[1]) ELSE t.name

ConnType(doc) == FlatMap(SelectSeq(doc.defs, LAMBDA d : Suffix(d.name, "Connection")), LAMBDA d :
  IF d.kind # "OBJECT" THEN R("relay-conn-type", d.pos, "type " \o d.name \o " cannot end with Connection as that is reserved for entities")
  ELSE FlatMap(SelectSeq(d.fields, LAMBDA f : f.name = "edges" /\ ~f.type.list), LAMBDA f :
         R("relay-conn-type", f.tpos, "edges field from Connection type " \o d.name \o " needs to return a list type"))
    \o FlatMap(SelectSeq(d.fields, LAMBDA f : f.name = "pageInfo" /\ TypeStr(f.type) # "PageInfo!"), LAMBDA f :
         R("relay-conn-type", f.tpos, "pageInfo field from Connection type " \o d.name \o " needs to return a non-null PageInfo object"))
    \o When(~Has(d.fields, "edges"), R("relay-conn-type", d.pos,
         "type " \o d.name \o " is a Connection type and therefore needs to have a field named 'edges' that returns a list type"))
    \o When(~Has(d.fields, "pageInfo"), R("relay-conn-type", d.pos,
         "type " \o d.name \o " is a Connection type and therefore needs to have a field named 'pageInfo' that returns a non-null PageInfo object")))

PageArg(f, name, otherWay, way) ==
  IF ~Has(f.args, name) THEN <<>>
  ELSE LET a == Get(f.args, name)  t == TypeStr(a.type)  ok == IF otherWay THEN {"Int"} ELSE {"Int", "Int!"} IN
    When(t \notin ok, R("relay-conn-args", a.pos,
      "field " \o f.name \o " is returns a Connection type "
      \o (IF otherWay THEN "that has both forward and backward pagination and therefore `" \o name \o "` argument should take a nullable non-negative integer"
                      ELSE "and has " \o way \o " pagination and therefore `" \o name \o "` argument should take a non-negative integer")
      \o " as per the Relay spec"))

ConnArgs(doc) == Fields(doc.defs, LAMBDA d, f :
  IF ~Suffix(Innermost(f.type), "Connection") THEN <<>>
  ELSE LET forward == Has(f.args, "first") /\ Has(f.args, "after")  backward == Has(f.args, "last") /\ Has(f.args, "before") IN
    When(~forward /\ ~backward, R("relay-conn-args", f.tpos, "field " \o f.name
      \o " returns a Connection type and therefore must include forward pagination arguments (`first` and `after`) and/or backward pagination arguments (`last` and `before`) as per the Relay spec"))
    \o PageArg(f, "first", backward, "forward")
    \o PageArg(f, "last", forward, "backward"))

-----------------------------------------------------------------------------
Report(rule, doc) ==
  CASE rule = "type-desc" -> TypeDesc(doc)   [] rule = "args-desc" -> ArgsDesc(doc)     [] rule = "field-desc" -> FieldDesc(doc)
    [] rule = "enum-caps" -> EnumCaps(doc)   [] rule = "enum-desc" -> EnumDesc(doc)     [] rule = "field-camel" -> FieldCamel(doc)
    [] rule = "type-caps" -> TypeCaps(doc)   [] rule = "relay-conn-type" -> ConnType(doc) [] rule = "relay-conn-args" -> ConnArgs(doc)

Reports(rules, doc) == FlatMap(rules, LAMBDA r : Report(r, doc))



=============================================================================
