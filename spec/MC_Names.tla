------------------------------ MODULE MC_Names ------------------------------
(***************************************************************************)
(* Near misses: all pairs of small things that are alike but not the same  *)
(* (sets of names, values, texts, kinds, applications, root operations),   *)
(* in every place the language lets such a thing stand. Each pair is a     *)
(* case for the real comparison, and for each the report of GqlCompare is  *)
(* checked against what the pair itself says changed.                      *)
(***************************************************************************)
EXTENDS Shapes, Notes, IOUtils

UNIVERSES == {"names", "values", "words", "kinds", "apps", "roots", "rows", "odd", "refs", "locs"}
VARIABLES u, o, n     \* the universe, the old thing, the new thing

-----------------------------------------------------------------------------
(* names *)
(* where a lost name shows, and where a new one does *)
NameRows == <<
  [lost |-> "TYPE_REMOVED", new |-> "TYPE_ADDED", in |-> ""],
  [lost |-> "FIELD_REMOVED", new |-> "FIELD_ADDED", in |-> "O."],
  [lost |-> "FIELD_ARGUMENT_REMOVED", new |-> "FIELD_ARGUMENT_ADDED", in |-> "O.f."],
  [lost |-> "INPUT_FIELD_REMOVED", new |-> "INPUT_FIELD_ADDED", in |-> "N."],
  [lost |-> "ENUM_VALUE_REMOVED", new |-> "ENUM_VALUE_ADDED", in |-> "E."] >>
Paths(chs, ct) == {chs[i].path : i \in {j \in DOMAIN chs : chs[j].ct = ct}}
Number(chs, ct) == Cardinality({i \in DOMAIN chs : chs[i].ct = ct})

NamesRight(chs) ==
  LET lost == o \ n  gained == n \ o  L == Cardinality(lost)  G == Cardinality(gained) IN
  /\ \A i \in DOMAIN NameRows : LET r == NameRows[i] ext == IF r.in = "" THEN {"", "X"} ELSE {""} IN
       /\ Paths(chs, r.lost) = {r.in \o x \o e : x \in lost, e \in ext}
       /\ Paths(chs, r.new) = {r.in \o x \o e : x \in gained, e \in ext}
  /\ Number(chs, "UNION_MEMBER_REMOVED") = L /\ Number(chs, "UNION_MEMBER_ADDED") = G
  /\ Number(chs, "OBJECT_TYPE_INTERFACE_REMOVED") = L /\ Number(chs, "OBJECT_TYPE_INTERFACE_ADDED") = G
  /\ Number(chs, "DIRECTIVE_REMOVED") = 2 * L /\ Number(chs, "DIRECTIVE_ADDED") = 2 * G        \* defined, applied
  /\ Number(chs, "DIRECTIVE_ARGUMENT_REMOVED") = 2 * L /\ Number(chs, "DIRECTIVE_ARGUMENT_ADDED") = 2 * G
  /\ Len(chs) = 12 * L + 12 * G
  /\ Cardinality({i \in DOMAIN chs : chs[i].crit = B}) = 10 * L + 2 * G    \* all but applied directives and their arguments; required input

-----------------------------------------------------------------------------
(* values *)
ValuesRight(chs) ==
  IF o = n THEN chs = <<>>
  ELSE /\ Number(chs, "FIELD_ARGUMENT_DEFAULT_CHANGED") = 2 /\ Number(chs, "INPUT_FIELD_DEFAULT_VALUE_CHANGED") = 2
       /\ Number(chs, "DIRECTIVE_ARGUMENT_DEFAULT_VALUE_CHANGED") = 2
       /\ Number(chs, IF n = NIL THEN "DIRECTIVE_ARGUMENT_REMOVED" ELSE IF o = NIL THEN "DIRECTIVE_ARGUMENT_ADDED" ELSE "DIRECTIVE_ARGUMENT_VALUE_CHANGED") = 2
       /\ \A ct \in {"FIELD_DEPRECATION_REASON_CHANGED", "INPUT_FIELD_DEPRECATION_REASON_CHANGED", "ENUM_VALUE_DEPRECATION_REASON_CHANGED"} :
            Number(chs, ct) = IF o = NIL \/ n = NIL THEN 0 ELSE 1
       /\ Len(chs) = IF o = NIL \/ n = NIL THEN 8 ELSE 11
       /\ Cardinality({i \in DOMAIN chs : chs[i].crit = B}) = IF n = NIL THEN 3 ELSE 0

-----------------------------------------------------------------------------
(* words *)
WordsRight(chs) ==
  /\ Len(chs) = IF o.text = n.text THEN 0 ELSE Cardinality(o.in)
  /\ \A i \in DOMAIN chs : chs[i].crit = N

-----------------------------------------------------------------------------
(* kinds *)
Kind(k) == IF k = "open INPUT_OBJECT" THEN "INPUT_OBJECT" ELSE k
KindsRight(chs) ==
  LET one(a, b, stays) ==      \* the changes of one part; stays: the other part was there before
        CASE a = b -> {}
          [] b = "" -> {<<"TYPE_REMOVED", B>>}
          [] a = "" -> {<<"TYPE_ADDED", IF b = "INPUT_OBJECT" /\ stays THEN B ELSE N>>}
          [] Kind(a) # Kind(b) -> {<<"TYPE_KIND_CHANGED", B>>}
          [] OTHER -> {<<"FIELD", IF a = "INPUT_OBJECT" THEN N ELSE B>>}
      shown == {<<IF chs[i].ct = "INPUT_FIELD_TYPE_CHANGED" THEN "FIELD" ELSE chs[i].ct, chs[i].crit>> : i \in DOMAIN chs}
  IN /\ shown = one(o.def, n.def, o.ext # "") \union one(o.ext, n.ext, o.def # "")
     /\ Len(chs) = Cardinality(one(o.def, n.def, o.ext # "")) + Cardinality(one(o.ext, n.ext, o.def # ""))

-----------------------------------------------------------------------------
(* apps *)
(* the kinds of directive in a list, and whether one can see deprecation *)
Marks(a) == {a[i].name : i \in DOMAIN a} \ {"deprecated"}
Deprecates(a) == \E i \in DOMAIN a : a[i].name = "deprecated"
(* the same applications, the deprecations aside, each as often *)
Same(a, b) == \A m \in {a[i] : i \in DOMAIN a} \union {b[i] : i \in DOMAIN b} : m.name # "deprecated" => CountIn(a, m) = CountIn(b, m)
AppsRight(chs) ==
  LET apps == {i \in DOMAIN chs : chs[i].ct \in {"DIRECTIVE_ADDED", "DIRECTIVE_REMOVED", "DIRECTIVE_CHANGED", "DIRECTIVE_ARGUMENT_ADDED", "DIRECTIVE_ARGUMENT_REMOVED", "DIRECTIVE_ARGUMENT_VALUE_CHANGED"}}
      deps == {i \in DOMAIN chs : chs[i].ct \in {p \o s : p \in {"FIELD", "INPUT_FIELD", "ENUM_VALUE"}, s \in {"_DEPRECATION_ADDED", "_DEPRECATION_REMOVED"}}}
  IN /\ Same(o, n) => apps = {}
     /\ Marks(n) \ Marks(o) # {} <=> \E i \in apps : chs[i].ct = "DIRECTIVE_ADDED"
     /\ Marks(o) \ Marks(n) # {} <=> \E i \in apps : chs[i].ct = "DIRECTIVE_REMOVED"
     /\ \A i \in DOMAIN chs : chs[i].crit # B
     /\ Cardinality(deps) = IF Deprecates(o) = Deprecates(n) THEN 0 ELSE 4
     /\ Cardinality(apps) % 5 = 0                       \* the five places agree (enum values show deprecations only)
     /\ \A i \in apps : \E j \in apps : chs[j].crit = chs[i].crit /\ chs[j].ct = chs[i].ct /\ j # i

-----------------------------------------------------------------------------
(* roots *)
(* The query type as the language defines it, for a document with or       *)
(* without a schema block. It is not told apart where neither has a block: *)
(* then the type itself comes and goes.                                    *)
QueryRoot(s) == IF s.b.block THEN (IF s.b.q = "" THEN "" ELSE Type("query", s.b.q)) ELSE IF s.t = "none" THEN "" ELSE "Query"
MutationRoot(s) == IF s.b.block /\ s.b.m # "" THEN Type("mutation", s.b.m) ELSE ""
RootsRight(chs) ==
  LET told == o.b.block \/ n.b.block
      seen(ct, a, b) == IF a = b THEN {} ELSE {<<ct, IF a = "" THEN N ELSE B>>}
      base == IF told THEN seen("SCHEMA_QUERY_TYPE_CHANGED", QueryRoot(o), QueryRoot(n)) \union seen("SCHEMA_MUTATION_TYPE_CHANGED", MutationRoot(o), MutationRoot(n)) ELSE {}
      further(op) == seen(IF op = "query" THEN "SCHEMA_QUERY_TYPE_CHANGED" ELSE "SCHEMA_SUBSCRIPTION_TYPE_CHANGED", IF o.x = op THEN "F" ELSE "", IF n.x = op THEN "F" ELSE "")
  IN {<<chs[i].ct, chs[i].crit>> : i \in {j \in DOMAIN chs : chs[j].ct \notin {"TYPE_ADDED", "TYPE_REMOVED"}}} = base \union further("query") \union further("subscription")

-----------------------------------------------------------------------------
(* rows *)
(* the old side is the whole row                                           *)
RowsRight(chs) ==
  LET k == Cardinality({i \in DOMAIN chs : chs[i].crit = B}) IN
  CASE n.how = "first" -> chs = <<>>
    [] n.how = "gone" -> Len(chs) = 13 /\ k = 10                      \* applications and their arguments are not breaking to lose
    [] n.how = "other" -> Len(chs) = 25 /\ k = 2 + 5                  \* a member, an interface; five types

-----------------------------------------------------------------------------
(* refs *)
RefsRight(chs) ==
  IF o = n THEN chs = <<>>
  ELSE /\ Len(chs) = 10 /\ \A i \in DOMAIN chs : chs[i].crit = B
       /\ {chs[i].ct : i \in DOMAIN chs} = {"SCHEMA_QUERY_TYPE_CHANGED", "SCHEMA_MUTATION_TYPE_CHANGED", "SCHEMA_SUBSCRIPTION_TYPE_CHANGED", "FIELD_TYPE_CHANGED",
                                             "FIELD_ARGUMENT_TYPE_CHANGED", "INPUT_FIELD_TYPE_CHANGED", "DIRECTIVE_ARGUMENT_TYPE_CHANGED"}

-----------------------------------------------------------------------------
(* locs *)
In(q) == {q[i] : i \in DOMAIN q}
LocsRight(chs) ==
  /\ Number(chs, "DIRECTIVE_LOCATION_REMOVED") = Cardinality(In(o) \ In(n)) /\ Number(chs, "DIRECTIVE_LOCATION_ADDED") = Cardinality(In(n) \ In(o))
  /\ Len(chs) = Cardinality(In(o) \ In(n)) + Cardinality(In(n) \ In(o))

-----------------------------------------------------------------------------
Shape(x) == CASE u \in {"names", "odd"} -> Names(x) [] u = "refs" -> ByName(x) [] u = "locs" -> Locs(x) [] u = "values" -> Values(x) [] u = "words" -> Words(x)
              [] u = "kinds" -> Kinds(x) [] u = "apps" -> Apps(x) [] u = "roots" -> Roots(x) [] u = "rows" -> Row(x)

Init == u \in (IF IOEnv.UNIVERSE = "all" THEN UNIVERSES ELSE {IOEnv.UNIVERSE}) /\ (CASE u = "names" -> o \in Few /\ n \in Few
          [] u = "values" -> o \in VALUES /\ n \in VALUES
          [] u = "odd" -> o \in One /\ n \in One
          [] u = "refs" -> o \in NAMES \union ODD /\ n \in NAMES \union ODD
          [] u = "locs" -> o \in LOCS /\ n \in LOCS
          [] u = "words" -> \E in \in {PLACES} \union {{p} : p \in PLACES} : \E ws \in {IF in = PLACES THEN WORDS ELSE ALIKE} : o \in [text : ws, in : {in}] /\ n \in [text : ws, in : {in}]
          [] u = "kinds" -> o \in [def : States, ext : States] /\ n \in [def : States, ext : States]
          [] u = "apps" -> o \in APPS /\ n \in APPS
          [] u = "roots" -> o \in ROOTS /\ n \in ROOTS
          [] u = "rows" -> n \in ROWS /\ o = [len |-> n.len, at |-> n.len + 1, how |-> "gone", style |-> n.style])
Spec == Init /\ [][UNCHANGED <<u, o, n>>]_<<u, o, n>>

Right(chs) == CASE u \in {"names", "odd"} -> NamesRight(chs) [] u = "refs" -> RefsRight(chs) [] u = "locs" -> LocsRight(chs) [] u = "values" -> ValuesRight(chs) [] u = "words" -> WordsRight(chs)
                [] u = "kinds" -> KindsRight(chs) [] u = "apps" -> AppsRight(chs) [] u = "roots" -> RootsRight(chs) [] u = "rows" -> RowsRight(chs)
ReportsAreRight == \E chs \in {Changes(Shape(o), Shape(n))} : Right(chs) /\ (o = n => chs = <<>>)
BothAreSchemas == WellFormed(Shape(n))
Case == Note("CASE", [id |-> u, kind |-> IF o = n THEN "same" ELSE "pair", old |-> Shape(o), new |-> Shape(n), edits |-> <<>>])
=============================================================================
