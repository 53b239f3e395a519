------------------------------ MODULE FileTree ------------------------------
(***************************************************************************)
(* The files around a run of the tool. The tool opens, reads and closes    *)
(* files that are there; other programs, which need not wait for it, see   *)
(* them as they have always been.                                          *)
(*                                                                         *)
(* A tree is a function from paths to what is there: anything, here.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES tree,     \* what is where
          open      \* the paths that are open
Files == <<tree, open>>

Look(p) == p \in DOMAIN tree /\ UNCHANGED Files
Open(p) == p \in DOMAIN tree /\ open' = open \union {p} /\ UNCHANGED tree
Read(p) == p \in open /\ UNCHANGED Files
Close(p) == p \in open /\ open' = open \ {p} /\ UNCHANGED tree
Exit == open' = {} /\ UNCHANGED tree

Step == Exit \/ \E p \in DOMAIN tree : Look(p) \/ Open(p) \/ Read(p) \/ Close(p)

(* what is different in another tree *)
Gone(t, u) == (DOMAIN t) \ DOMAIN u
New(t, u) == (DOMAIN u) \ DOMAIN t
Changed(t, u) == {p \in DOMAIN t \intersect DOMAIN u : t[p] # u[p]}
Untouched(t, u) == Gone(t, u) = {} /\ New(t, u) = {} /\ Changed(t, u) = {}
=============================================================================
