---------------------------- MODULE MC_FileTree ----------------------------
(* Whatever steps the tool takes, the tree stays as it was; another program *)
(* may change it meanwhile, and then it is as that program left it.         *)
EXTENDS FileTree
PATHS == {"a", "b", "c"}
STATES == {"old", "new"}
VARIABLES seen, others    \* the tree as it would be without the tool; how many changes others made
vars == <<tree, open, seen, others>>
Init == /\ \E S \in SUBSET PATHS : tree \in [S -> STATES]
        /\ open = {} /\ seen = tree /\ others = 0
Other == /\ others < 2 /\ others' = others + 1
         /\ \E S \in SUBSET PATHS : tree' \in [S -> STATES]
         /\ seen' = tree' /\ open' = open \intersect DOMAIN tree'
Next == (Step /\ UNCHANGED <<seen, others>>) \/ Other
Spec == Init /\ [][Next]_vars
AsWithout == Untouched(seen, tree)
OnlyThere == open \subseteq DOMAIN tree
=============================================================================
