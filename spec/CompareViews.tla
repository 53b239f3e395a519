---------------------------- MODULE CompareViews ----------------------------
(***************************************************************************)
(* The properties C01-C07 and C09-C11, as predicates over a pair of        *)
(* schemas and the reports actually made for it in both directions.        *)
(* A report is a sequence of [ct, crit, path, msg, toks, pos].             *)
(***************************************************************************)
EXTENDS GqlCompare

StartsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
EndsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, Len(s) - Len(p) + 1, Len(s)) = p

(* Directive changes are about definitions ("@d", "@d.x") or applications. *)
OfDefinition(c) == StartsWith(c.path, "@") /\ Len(c.toks) # 3 /\ c.ct # "DIRECTIVE_ARGUMENT_VALUE_CHANGED"

RootCts == {"SCHEMA_QUERY_TYPE_CHANGED", "SCHEMA_MUTATION_TYPE_CHANGED", "SCHEMA_SUBSCRIPTION_TYPE_CHANGED"}

Tok(c, i) == IF Len(c.toks) >= i THEN c.toks[i] ELSE "?"

(* What identifies the element besides kind of change and path.            *)
Elem(c) ==
  CASE c.ct \in {"UNION_MEMBER_REMOVED", "UNION_MEMBER_ADDED", "DIRECTIVE_LOCATION_REMOVED", "DIRECTIVE_LOCATION_ADDED"} -> <<Tok(c, 1)>>
    [] c.ct \in {"OBJECT_TYPE_INTERFACE_REMOVED", "OBJECT_TYPE_INTERFACE_ADDED"} -> <<Tok(c, 2)>>
    [] c.ct \in {"DIRECTIVE_REMOVED", "DIRECTIVE_ADDED", "DIRECTIVE_CHANGED"} -> <<Tok(c, 1)>>
    [] c.ct \in {"DIRECTIVE_ARGUMENT_REMOVED", "DIRECTIVE_ARGUMENT_ADDED"} /\ Len(c.toks) = 3 -> c.toks
    [] c.ct = "DIRECTIVE_ARGUMENT_VALUE_CHANGED" -> <<Tok(c, 1), Tok(c, 2), Tok(c, Len(c.toks))>>
    [] c.ct \in RootCts -> c.toks
    [] c.ct \in {"TYPE_REMOVED", "TYPE_ADDED"} -> <<IF StartsWith(c.msg, "Extended") THEN "ext" ELSE "def">>
    [] OTHER -> <<>>

Key(c)     == [ct |-> c.ct, crit |-> c.crit, path |-> c.path, elem |-> Elem(c)]
What(c)    == [ct |-> c.ct, path |-> c.path, elem |-> Elem(c)]
Located(c) == [ct |-> c.ct, path |-> c.path, msg |-> c.msg, file |-> c.pos.f, line |-> c.pos.l]
Keys(s) == MapSeq(s, Key)

-----------------------------------------------------------------------------
(* Which kinds of change belong to which property *)

TypeChange(c) == c.ct \in {"FIELD_TYPE_CHANGED", "FIELD_ARGUMENT_TYPE_CHANGED", "INPUT_FIELD_TYPE_CHANGED", "DIRECTIVE_ARGUMENT_TYPE_CHANGED"}
AddedInput(c) == \/ c.ct \in {"FIELD_ARGUMENT_ADDED", "INPUT_FIELD_ADDED"}
                 \/ c.ct = "DIRECTIVE_ARGUMENT_ADDED" /\ OfDefinition(c)
Altering(c) ==
  \/ c.ct \in {"FIELD_ARGUMENT_DEFAULT_CHANGED", "INPUT_FIELD_DEFAULT_VALUE_CHANGED", "DIRECTIVE_ARGUMENT_DEFAULT_VALUE_CHANGED",
               "FIELD_DEPRECATION_ADDED", "FIELD_DEPRECATION_REMOVED", "INPUT_FIELD_DEPRECATION_ADDED", "INPUT_FIELD_DEPRECATION_REMOVED",
               "ENUM_VALUE_DEPRECATION_ADDED", "ENUM_VALUE_DEPRECATION_REMOVED", "ENUM_VALUE_ADDED", "UNION_MEMBER_ADDED",
               "OBJECT_TYPE_INTERFACE_ADDED", "DIRECTIVE_CHANGED", "DIRECTIVE_ARGUMENT_VALUE_CHANGED"}
  \/ c.ct \in {"DIRECTIVE_REMOVED", "DIRECTIVE_ARGUMENT_REMOVED"} /\ ~OfDefinition(c)
Adding(c) ==
  \/ c.ct \in {"TYPE_ADDED", "FIELD_ADDED", "DIRECTIVE_ADDED", "DIRECTIVE_LOCATION_ADDED", "DIRECTIVE_REPEATABLE_ADDED",
               "TYPE_DESCRIPTION_CHANGED", "FIELD_DESCRIPTION_CHANGED", "INPUT_FIELD_DESCRIPTION_CHANGED", "FIELD_ARGUMENT_DESCRIPTION_CHANGED",
               "ENUM_VALUE_DESCRIPTION_CHANGED", "DIRECTIVE_DESCRIPTION_CHANGED", "DIRECTIVE_ARGUMENT_DESCRIPTION_CHANGED",
               "FIELD_DEPRECATION_REASON_CHANGED", "INPUT_FIELD_DEPRECATION_REASON_CHANGED", "ENUM_VALUE_DEPRECATION_REASON_CHANGED"}
  \/ c.ct = "DIRECTIVE_ARGUMENT_ADDED" /\ ~OfDefinition(c)

-----------------------------------------------------------------------------
(* C01: the same content, however written *)

BagOf(s) == {<<s[i], CountIn(s, s[i])>> : i \in DOMAIN s}
Ran(s) == {s[i] : i \in DOMAIN s}
CanonApps(apps) == BagOf(MapSeq(apps, LAMBDA a : <<a.name, {<<a.args[i].name, a.args[i].val>> : i \in DOMAIN a.args}>>))
CanonArgs(args) == {<<args[i].name, args[i].desc, TypeStr(args[i].type), args[i].def>> : i \in DOMAIN args}
CanonField(f) == <<f.name, f.desc, TypeStr(f.type), f.def, CanonArgs(f.args), CanonApps(f.dirs)>>
CanonDef(d) == [kind |-> d.kind, name |-> d.name, desc |-> d.desc, dirs |-> CanonApps(d.dirs), ifaces |-> Ran(d.ifaces),
                members |-> Ran(d.members), fields |-> {CanonField(d.fields[i]) : i \in DOMAIN d.fields},
                values |-> {<<d.values[i].name, d.values[i].desc, CanonApps(d.values[i].dirs)>> : i \in DOMAIN d.values}]
CanonOps(blocks) == LET ops == BlockOps(blocks) IN {<<ops[i].op, ops[i].type>> : i \in DOMAIN ops}
Canon(s) ==
  LET exts == MergeExts(s.exts) IN
  [schema |-> CanonOps(s.schema), declared |-> s.schema # <<>>, ext |-> CanonOps(s.schemaExt),
   dirs |-> {<<s.dirs[i].name, s.dirs[i].desc, CanonArgs(s.dirs[i].args), Ran(s.dirs[i].locs), s.dirs[i].rep>> : i \in DOMAIN s.dirs},
   defs |-> {CanonDef(s.defs[i]) : i \in DOMAIN s.defs},
   exts |-> {CanonDef(exts[i]) : i \in DOMAIN exts}]
Equivalent(a, b) == Canon(a) = Canon(b)

-----------------------------------------------------------------------------
(* The properties. x is the report the specification determines.           *)

Agree(x, r, In(_)) == SameBag(Keys(SelectSeq(x, In)), Keys(SelectSeq(r, In)))

HoldsC01(old, new, fwd, bwd) == Equivalent(old, new) => fwd = <<>> /\ bwd = <<>>

HoldsC02(x, r) == WithinBag(Keys(SelectSeq(x, LAMBDA c : c.cls = "removal")), Keys(r))

HoldsC03(x, r) == Agree(x, r, TypeChange)
HoldsC04(x, r) == Agree(x, r, AddedInput)
HoldsC05(x, r) == Agree(x, r, Altering)

AllCompatible(x) == \A i \in DOMAIN x : x[i].crit = N
HoldsC06(x, r) ==
  /\ Agree(x, r, Adding)
  /\ LET adds == Keys(SelectSeq(x, LAMBDA c : c.ct \in RootCts /\ c.cls = "additive")) IN
       \A i \in DOMAIN adds : CountIn(adds, adds[i]) = CountIn(Keys(r), adds[i])
  /\ AllCompatible(x) => \A i \in DOMAIN r : r[i].crit = N

HoldsC07(x, r) == SameBag(Keys(x), Keys(r))
HoldsC09(x, r) == SameBag(MapSeq(x, What), MapSeq(r, What))

(* C10: what a change must look like in the opposite direction             *)
CUT(s, suffix) == SubSeq(s, 1, Len(s) - Len(suffix))
FlipCt(ct) == IF EndsWith(ct, "_ADDED") THEN CUT(ct, "_ADDED") \o "_REMOVED"
              ELSE IF EndsWith(ct, "_REMOVED") THEN CUT(ct, "_REMOVED") \o "_ADDED" ELSE ct
(* the element, without what only one direction mentions *)
Thing(c) == IF c.ct \in {"DIRECTIVE_ARGUMENT_REMOVED", "DIRECTIVE_ARGUMENT_ADDED"} /\ Len(c.toks) = 3 THEN <<"", c.toks>>
            ELSE <<c.path, Elem(c)>>
Seen(c) == CASE c.ct \in RootCts /\ Len(c.toks) = 1 -> <<c.ct, c.toks, c.crit = B>>
             [] c.ct \in RootCts -> <<c.ct, c.toks, TRUE>>
             [] OTHER -> <<c.ct, Thing(c), TRUE>>
Flipped(c) == CASE c.ct \in RootCts /\ Len(c.toks) = 1 -> <<c.ct, c.toks, c.crit # B>>
                [] c.ct \in RootCts -> <<c.ct, Reverse(c.toks), TRUE>>
                [] OTHER -> <<FlipCt(c.ct), Thing(c), TRUE>>
Mirrored(c) == c.ct # "DIRECTIVE_CHANGED"
HoldsC10(fwd, bwd) == SameBag(MapSeq(SelectSeq(fwd, Mirrored), Flipped), MapSeq(SelectSeq(bwd, Mirrored), Seen))

HoldsC11(x, r) == SameBag(MapSeq(x, Located), MapSeq(r, Located))
=============================================================================
