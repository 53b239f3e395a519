--------------------------- MODULE MC_CommandLine ---------------------------
(***************************************************************************)
(* Command lines, typed word by word, in all ways. What was asked for so   *)
(* far only changes as the next word says. Every command line is a case    *)
(* for the real tool, with the plainest command line that asks for the     *)
(* same.                                                                   *)
(***************************************************************************)
EXTENDS CommandLine, Notes, IOUtils

DEPTH == IF IOEnv.DEPTH = "4" THEN 4 ELSE 3
LINT == {"-f", "-fa.graphql", "-f=b.graphql", "--filepath", "--filepath=a.graphql", "--filepath=", "--filepath=none.graphql", "a.graphql", "-b",
         "-r", "-rtype-desc", "-r=FIELD-desc,type-caps", "--rules=field-desc,type-desc", "--rules", "--rules=no-rule", "--rule=type-desc", "--", "-h", "--help=false", "-x", ""}
COMPARE == {"-o", "-n", "-oa.graphql", "-n=b.graphql", "--oldversion", "--newversion", "--oldversion=b.graphql", "--newversion=a.graphql",
            "--newversion=broken.graphql", "a.graphql", "-b", "-e", "-be", "-ebnb.graphql", "-bo", "--breaking-change-only", "--breaking-change-only=false", "-b=t", "-e=maybe",
            "--exclude-print-filepath=1", "--breaking", "--", "--help", "-bx"}
(* the fourth word and those before it are among fewer *)
FEWER == {"-f", "-fa.graphql", "--filepath=", "a.graphql", "-r", "-rtype-desc", "--rules", "--", "-h", "--help=false", "-x", "-o", "-oa.graphql", "--newversion", "-n=b.graphql", "-be",
          "-ebnb.graphql", "-bo", "--breaking-change-only=false"}
BASES == {<<"compare", "-oa.graphql", "-nb.graphql">>, <<"compare", "--newversion=b.graphql", "-b", "--oldversion", "a.graphql">>}
OUTSIDE == {<<>>, <<"help">>, <<"help", "lint">>, <<"help", "compare">>, <<"-h">>, <<"--help">>, <<"--help=false">>, <<"-x">>, <<"--filepath=a.graphql">>, <<"-fa.graphql">>, <<"lnit">>,
          <<"lnit", "-f", "a.graphql">>, <<"Lint">>, <<"a.graphql">>, <<"a.graphql", "b.graphql">>, <<"diff", "-o", "a.graphql", "-n", "b.graphql">>, <<"--version">>, <<"-v">>}

VARIABLES argv, left
vars == <<argv, left>>
Alphabet(cmd) == IF cmd = "lint" THEN LINT ELSE COMPARE
Init == \/ argv \in {<<"lint">>, <<"compare">>} /\ left = DEPTH
        \/ argv \in BASES /\ left = (IF DEPTH = 4 THEN 3 ELSE 2)
        \/ argv \in OUTSIDE /\ left = 0
Type(w) == argv' = Append(argv, w) /\ left' = left - 1
Next == /\ left > 0
        /\ \E w \in Alphabet(argv[1]) : /\ DEPTH = 4 /\ left = 1 => w \in FEWER /\ \A i \in 2..Len(argv) : argv[i] \in FEWER
                                     /\ Type(w)
Spec == Init /\ [][Next]_vars

Now == Asked(argv)
(* asking plainly asks for the same *)
PlainIsPlain == Now.what = "run" => Asked(Now.plain) = Now
(* what is wrong stays wrong, whatever else is typed *)
Stays == [][(Now.what = "refused" /\ ~\E w \in {"-f", "-r", "--filepath", "--rules", "-o", "-n", "-bo", "--oldversion", "--newversion"} : argv # <<>> /\ argv[Len(argv)] = w)
             => Asked(argv').what = "refused"]_vars
(* a further word that is no option, and no value of one, changes nothing *)
NoOption == [][(Now.what = "run" /\ argv' = Append(argv, "a.graphql")) => Asked(argv') = Now]_vars
(* a switch can be turned off again *)
TurnedOff == (Now.what = "run" /\ argv[1] = "compare" /\ ~(\E i \in DOMAIN argv : argv[i] = "--") /\ "--breaking-change-only" \in {Now.plain[i] : i \in DOMAIN Now.plain})
             => \E a \in {Asked(Append(argv, "-b=false"))} : a.what = "run" /\ "--breaking-change-only" \notin {a.plain[i] : i \in DOMAIN a.plain}
Case == Note("CASE", [argv |-> argv, plain |-> Now.plain])
=============================================================================
