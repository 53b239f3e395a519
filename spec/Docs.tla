-------------------------------- MODULE Docs --------------------------------
(* Building blocks for documents (GqlCompare) and what types mean.          *)
EXTENDS GqlCompare

P0 == [f |-> "", l |-> 0, c |-> 0]

T(n)  == [nn |-> FALSE, list |-> FALSE, name |-> n, elem |-> <<>>]
Ls(t) == [nn |-> FALSE, list |-> TRUE, name |-> "", elem |-> <<t>>]
Nn(t) == [t EXCEPT !.nn = TRUE]

AppArg(n, v) == [name |-> n, val |-> v, pos |-> P0]
App(n, args) == [name |-> n, args |-> args, pos |-> P0]
Arg(n, t, d) == [name |-> n, desc |-> "", type |-> t, def |-> d, pos |-> P0]
Fld(n, t) == [name |-> n, desc |-> "", args |-> <<>>, type |-> t, tpos |-> P0, def |-> NIL, dirs |-> <<>>, pos |-> P0]
Val(n) == [name |-> n, desc |-> "", dirs |-> <<>>, pos |-> P0]
Def(k, n) == [kind |-> k, name |-> n, desc |-> "", dirs |-> <<>>, ifaces |-> <<>>, fields |-> <<>>, members |-> <<>>,
              values |-> <<>>, pos |-> P0]
Op(o, t) == [op |-> o, type |-> t, pos |-> P0]
Block(ops) == [ops |-> ops, pos |-> P0]
DirDef(n, args, locs) == [name |-> n, desc |-> "", args |-> args, locs |-> locs, rep |-> FALSE, pos |-> P0]
Doc0 == [schema |-> <<>>, schemaExt |-> <<>>, dirs |-> <<>>, defs |-> <<>>, exts |-> <<>>]

-----------------------------------------------------------------------------
(* All type references over the given names, at most n lists deep          *)
RECURSIVE Refs(_, _)
Refs(names, n) ==
  LET flat == {T(a) : a \in names}
      open == IF n = 0 THEN flat ELSE flat \union {Ls(t) : t \in Refs(names, n - 1)}
  IN open \union {Nn(t) : t \in open}

(* What a type means: the set of its values. Values are written as texts;  *)
(* lists of at most one element tell all types apart.                      *)
RECURSIVE Members(_)
Members(t) ==
  (IF t.nn THEN {} ELSE {"null"})
  \union IF t.list THEN {"[]"} \union {"[" \o v \o "]" : v \in Members(t.elem[1])} ELSE {"a " \o t.name}
=============================================================================
