------------------------------- MODULE Client -------------------------------
(***************************************************************************)
(* Client operations and when they are valid against a schema: the rules   *)
(* of GraphQL validation that depend on the schema. A selection set is     *)
(* reduced to one selection and an operation to one chain of selections,   *)
(* since every rule (but merging of fields, which is out of scope) looks   *)
(* at one selection and its ancestors.                                     *)
(*   operation  [op, dirs, sel]                                            *)
(*   selection  [k, name, args, dirs, sub]  k: "field", "on"; sub: at most *)
(*              one selection                                              *)
(*   argument   [name, val]                                                *)
(*   value      [k, v, xs, fs, type, def]   k: "null", "int", "enum",      *)
(*              "list" (of xs), "obj" (with fs), "var" (declared as type,  *)
(*              with a default or not)                                     *)
(*   directive  [name, args, loc]                                          *)
(***************************************************************************)
EXTENDS GqlClient, CompareViews, Docs

None == [nn |-> FALSE, list |-> FALSE, name |-> "", elem |-> <<>>]
Val0(k, v) == [k |-> k, v |-> v, xs |-> <<>>, fs |-> <<>>, type |-> None, def |-> FALSE]
NullVal == Val0("null", "")
IntVal == Val0("int", "1")
EnumVal(x) == Val0("enum", x)
ListVal(xs) == [Val0("list", "") EXCEPT !.xs = xs]
ObjVal(fs) == [Val0("obj", "") EXCEPT !.fs = fs]
VarVal(t, d) == [Val0("var", "") EXCEPT !.type = t, !.def = d]
Pass(n, v) == [name |-> n, val |-> v]
Field(n, args, dirs, sub) == [k |-> "field", name |-> n, args |-> args, dirs |-> dirs, sub |-> sub]
On(n, dirs, sub) == [k |-> "on", name |-> n, args |-> <<>>, dirs |-> dirs, sub |-> sub]
Apply(n, args, loc) == [name |-> n, args |-> args, loc |-> loc]
Operation(o, dirs, sel) == [op |-> o, dirs |-> dirs, sel |-> sel]

(* A schema as a client sees it *)
View(s) == [types |-> Effective(s), roots |-> Roots(s), dirs |-> s.dirs]
Builtin == {"Int"}
Known(S, n) == n \in Builtin \/ Has(S.types, n)
Kind(S, n) == IF Has(S.types, n) THEN Get(S.types, n).kind ELSE "SCALAR"
RECURSIVE Named(_)
Named(t) == IF t.list THEN Named(t.elem[1]) ELSE t.name
Composite(S, n) == Kind(S, n) \in {"OBJECT", "INTERFACE", "UNION"}
InputKind(S, n) == Kind(S, n) \in {"SCALAR", "ENUM", "INPUT_OBJECT"}

(* the object types a value of type n can be *)
Possible(S, n) ==
  CASE Kind(S, n) = "OBJECT" -> {n}
    [] Kind(S, n) = "UNION" -> Ran(Get(S.types, n).members)
    [] Kind(S, n) = "INTERFACE" -> {S.types[i].name : i \in {i \in DOMAIN S.types : S.types[i].kind = "OBJECT" /\ Contains(S.types[i].ifaces, n)}}
    [] OTHER -> {}

-----------------------------------------------------------------------------
(* Validity *)

RECURSIVE ValueOK(_, _, _, _), ArgsOK(_, _, _), SelOK(_, _, _)
(* v is passed where type t is expected; dflt: there is a default for it   *)
ValueOK(S, t, dflt, v) ==
  CASE v.k = "var" -> /\ Known(S, Named(v.type)) /\ InputKind(S, Named(v.type))
                      /\ Covariant(IF dflt \/ v.def THEN [t EXCEPT !.nn = FALSE] ELSE t, v.type)
    [] v.k = "null" -> ~t.nn
    [] t.list -> IF v.k = "list" THEN \A i \in DOMAIN v.xs : ValueOK(S, t.elem[1], FALSE, v.xs[i])
                 ELSE ValueOK(S, t.elem[1], FALSE, v)
    [] OTHER -> /\ v.k # "list"
                /\ CASE Kind(S, t.name) = "ENUM" -> v.k = "enum" /\ Has(Get(S.types, t.name).values, v.v)
                     [] Kind(S, t.name) = "INPUT_OBJECT" -> v.k = "obj" /\ ArgsOK(S, Get(S.types, t.name).fields, v.fs)
                     [] Kind(S, t.name) = "SCALAR" -> t.name = "Int" => v.k = "int"
                     [] OTHER -> FALSE
ArgsOK(S, params, args) ==
  /\ \A i \in DOMAIN args : Has(params, args[i].name)
       /\ LET p == Get(params, args[i].name) IN ValueOK(S, p.type, p.def # NIL, args[i].val)
  /\ \A i \in DOMAIN params : Required(params[i]) => Has(args, params[i].name)
DirectivesOK(S, ds) ==
  \A i \in DOMAIN ds : Has(S.dirs, ds[i].name)
    /\ LET d == Get(S.dirs, ds[i].name) IN
         /\ Contains(d.locs, ds[i].loc)
         /\ ArgsOK(S, d.args, ds[i].args)
         /\ d.rep \/ \A j \in DOMAIN ds : j # i => ds[j].name # ds[i].name
SelOK(S, parent, x) ==
  /\ DirectivesOK(S, x.dirs)
  /\ IF x.k = "on" THEN /\ Known(S, x.name) /\ Composite(S, x.name)
                        /\ Possible(S, x.name) \intersect Possible(S, parent) # {}
                        /\ SelOK(S, x.name, x.sub[1])
     ELSE IF x.name = "__typename" THEN x.args = <<>> /\ x.sub = <<>>
     ELSE /\ Kind(S, parent) \in {"OBJECT", "INTERFACE"}
          /\ Has(Get(S.types, parent).fields, x.name)
          /\ LET f == Get(Get(S.types, parent).fields, x.name) IN
               /\ ArgsOK(S, f.args, x.args)
               /\ IF Composite(S, Named(f.type)) THEN x.sub # <<>> /\ SelOK(S, Named(f.type), x.sub[1]) ELSE x.sub = <<>>
RootType(S, o) == LET r == SelectSeq(S.roots, LAMBDA x : x.op = o) IN IF r = <<>> THEN "" ELSE r[1].type
Valid(S, o) ==
  /\ RootType(S, o.op) # "" /\ Known(S, RootType(S, o.op))
  /\ DirectivesOK(S, o.dirs)
  /\ SelOK(S, RootType(S, o.op), o.sel)

(* A valid operation, and the types of what it returns, field by field     *)
RECURSIVE Returns(_, _, _)
Returns(S, parent, x) ==
  IF x.k = "on" THEN Returns(S, x.name, x.sub[1])
  ELSE IF x.name = "__typename" THEN <<>>
  ELSE LET f == Get(Get(S.types, parent).fields, x.name) IN <<f.type>> \o (IF x.sub = <<>> THEN <<>> ELSE Returns(S, Named(f.type), x.sub[1]))
(* valid in the old schema; does it still work in the new one? *)
StillWorks(O, S, o) ==
  /\ Valid(S, o)
  /\ LET was == Returns(O, RootType(O, o.op), o.sel)  is == Returns(S, RootType(S, o.op), o.sel) IN
       \A i \in DOMAIN was : Members(is[i]) \subseteq Members(was[i])

-----------------------------------------------------------------------------
(* Operations that make use of one thing a schema offers                   *)

First1(X) == IF X = {} THEN {} ELSE {CHOOSE x \in X : TRUE}

RECURSIVE Literals(_, _, _), ArgChoices(_, _, _)
(* ways to write a value of type t, n input objects deep *)
Literals(S, t, n) ==
  (IF t.nn THEN {} ELSE {NullVal})
  \union IF t.list THEN {ListVal(<<>>)} \union {ListVal(<<v>>) : v \in Literals(S, t.elem[1], n) \union {VarVal(t.elem[1], FALSE)}}
         ELSE CASE Kind(S, t.name) = "ENUM" -> {EnumVal(x.name) : x \in Ran(Get(S.types, t.name).values)}
                [] Kind(S, t.name) = "INPUT_OBJECT" -> IF n = 0 THEN {} ELSE {ObjVal(as) : as \in ArgChoices(S, Get(S.types, t.name).fields, n - 1)}
                [] OTHER -> {IntVal}
(* ways to fill a list of parameters: the required ones, and one in any way *)
Simple(S, p, n) == CHOOSE v \in Literals(S, p.type, n) \union {VarVal(p.type, FALSE)} : v.k # "null" /\ (v.k = "var" => ~\E w \in Literals(S, p.type, n) : w.k # "null")
Ways(S, p, n) == Literals(S, p.type, n) \union {VarVal(p.type, FALSE), VarVal([p.type EXCEPT !.nn = FALSE], TRUE)}
                 \union (IF p.def # NIL THEN {VarVal([p.type EXCEPT !.nn = FALSE], FALSE)} ELSE {})
ArgChoices(S, params, n) ==
  LET need == SelectSeq(params, Required)
      base == [i \in DOMAIN need |-> Pass(need[i].name, Simple(S, need[i], n))]
  IN {base} \union UNION {LET rest == SelectSeq(base, LAMBDA a : a.name # params[i].name) IN
                          {Append(rest, Pass(params[i].name, v)) : v \in Ways(S, params[i], n)} : i \in DOMAIN params}

NeedOnly(S, params) == LET need == SelectSeq(params, Required) IN [i \in DOMAIN need |-> Pass(need[i].name, Simple(S, need[i], 2))]

RECURSIVE Selections(_, _, _)
Selections(S, parent, n) ==
  {Field("__typename", <<>>, <<>>, <<>>)}
  \union (IF Kind(S, parent) \notin {"OBJECT", "INTERFACE"} THEN {} ELSE UNION {
     LET f == Get(S.types, parent).fields[i]
         here == {Field(f.name, as, <<>>, IF Composite(S, Named(f.type)) THEN <<Field("__typename", <<>>, <<>>, <<>>)>> ELSE <<>>) : as \in ArgChoices(S, f.args, 2)}
         deeper == IF n = 0 \/ ~Composite(S, Named(f.type)) THEN {} ELSE {Field(f.name, NeedOnly(S, f.args), <<>>, <<x>>) : x \in Selections(S, Named(f.type), n - 1)}
     IN here \union deeper : i \in DOMAIN Get(S.types, parent).fields})
  \union (IF n = 0 THEN {} ELSE UNION {
     {On(S.types[i].name, <<>>, <<x>>) : x \in Selections(S, S.types[i].name, 0)}
     : i \in {i \in DOMAIN S.types : Composite(S, S.types[i].name) /\ Possible(S, S.types[i].name) \intersect Possible(S, parent) # {}}})

Decorations(S, loc) ==
  UNION {LET d == S.dirs[i] IN
    IF ~Contains(d.locs, loc) THEN {}
    ELSE {<<Apply(d.name, as, loc)>> : as \in ArgChoices(S, d.args, 2)}
         \union (IF d.rep THEN {<<Apply(d.name, NeedOnly(S, d.args), loc), Apply(d.name, NeedOnly(S, d.args), loc)>>} ELSE {}) : i \in DOMAIN S.dirs}
LocOf(o) == CASE o = "query" -> "QUERY" [] o = "mutation" -> "MUTATION" [] o = "subscription" -> "SUBSCRIPTION"
Operations(S, n) ==
  UNION {LET r == S.roots[i] IN
    {Operation(r.op, <<>>, x) : x \in Selections(S, r.type, n)}
    \union {Operation(r.op, ds, Field("__typename", <<>>, <<>>, <<>>)) : ds \in Decorations(S, LocOf(r.op))}
    \union {Operation(r.op, <<>>, Field("__typename", <<>>, ds, <<>>)) : ds \in Decorations(S, "FIELD")}
    \union {Operation(r.op, <<>>, On(r.type, ds, <<Field("__typename", <<>>, <<>>, <<>>)>>)) : ds \in Decorations(S, "INLINE_FRAGMENT")}
  : i \in DOMAIN S.roots}
=============================================================================
