------------------------------ MODULE GqlClient ------------------------------
(***************************************************************************)
(* What a client of a schema relies on, and when a newer schema keeps it.  *)
(* Base definitions and extensions of a type are one type to a client.     *)
(***************************************************************************)
EXTENDS GqlCompare

ExecutableLocations == {"QUERY", "MUTATION", "SUBSCRIPTION", "FIELD", "FRAGMENT_DEFINITION", "FRAGMENT_SPREAD",
                        "INLINE_FRAGMENT", "VARIABLE_DEFINITION"}

(* All types as a client sees them *)
Effective(s) == MergeExts(s.defs \o s.exts)

(* The root operations: declared, or given by the default type names *)
Roots(s) == (IF s.schema = <<>> THEN DefaultOps(s) ELSE BlockOps(s.schema)) \o BlockOps(s.schemaExt)

Required(a) == a.type.nn /\ a.def = NIL

(* Everything one could pass for o can be passed for n. A variable of      *)
(* nullable type may be passed for a non-null argument with a default.     *)
AcceptsAll(o, n) == InputSafe(o.type, n.type) /\ (Required(n) => Required(o))

InputsSafe(os, ns) ==
  /\ \A i \in DOMAIN os : Has(ns, os[i].name) /\ AcceptsAll(os[i], Get(ns, os[i].name))
  /\ \A i \in DOMAIN ns : Has(os, ns[i].name) \/ ~Required(ns[i])

FieldsSafe(os, ns) ==
  \A i \in DOMAIN os : /\ Has(ns, os[i].name)
                       /\ LET n == Get(ns, os[i].name) IN OutputSafe(os[i].type, n.type) /\ InputsSafe(os[i].args, n.args)

SubsetStr(s, t) == \A i \in DOMAIN s : Contains(t, s[i])
SubsetNames(s, t) == \A i \in DOMAIN s : Has(t, s[i].name)

TypeSafe(o, n) ==
  /\ o.kind = n.kind
  /\ o.kind \in {"OBJECT", "INTERFACE"} => FieldsSafe(o.fields, n.fields)
  /\ o.kind = "OBJECT" => SubsetStr(o.ifaces, n.ifaces)
  /\ o.kind = "INPUT_OBJECT" => InputsSafe(o.fields, n.fields)
  /\ o.kind = "ENUM" => SubsetNames(o.values, n.values)
  /\ o.kind = "UNION" => SubsetStr(o.members, n.members)

Executable(d) == SelectSeq(d.locs, LAMBDA x : x \in ExecutableLocations)

DirectiveSafe(o, n) == /\ SubsetStr(Executable(o), n.locs)
                       /\ o.rep => n.rep
                       /\ InputsSafe(o.args, n.args)

(* Every operation valid against old is valid against new and returns what *)
(* its old types allowed. MC_Client relates this to operations.            *)
ClientSafe(old, new) ==
  LET ot == Effective(old)  nt == Effective(new)  or == Roots(old)  nr == Roots(new) IN
  /\ \A i \in DOMAIN or : \E j \in DOMAIN nr : nr[j].op = or[i].op /\ nr[j].type = or[i].type
  /\ \A i \in DOMAIN ot : Has(nt, ot[i].name) /\ TypeSafe(ot[i], Get(nt, ot[i].name))
  /\ \A i \in DOMAIN old.dirs : Executable(old.dirs[i]) # <<>> =>
       Has(new.dirs, old.dirs[i].name) /\ DirectiveSafe(old.dirs[i], Get(new.dirs, old.dirs[i].name))

(* Operations are valid against schemas in which definitions and           *)
(* extensions of a type are of one kind and have no member in common.      *)
Fits(d, e) == d.kind = e.kind /\ Shared(d.fields, e.fields) = <<>> /\ Shared(d.values, e.values) = <<>> /\ \A i \in DOMAIN d.members : ~Contains(e.members, d.members[i])
PartsFit(s) == \A i \in DOMAIN s.defs, j \in DOMAIN s.exts : s.defs[i].name = s.exts[j].name => Fits(s.defs[i], s.exts[j])

HoldsC08(old, new, r) == PartsFit(old) /\ PartsFit(new) /\ (\A i \in DOMAIN r : r[i].crit # B) => ClientSafe(old, new)
=============================================================================
