------------------------------ MODULE History ------------------------------
(***************************************************************************)
(* Comparisons along a history of versions. A change made in one go has    *)
(* been made in some of the steps, so what is grave about it was so there. *)
(*                                                                         *)
(* A history is a tuple of versions; at[i][k] is what comparing version i  *)
(* with version k reports. As versions may come in any order, and return,  *)
(* every way i, j, k from one version by another to a third is a history.  *)
(***************************************************************************)
EXTENDS CompareViews

Rank(crit) == CASE crit = B -> 2 [] crit = D -> 1 [] OTHER -> 0

(* Directives applied to elements are matched by name, or by name and      *)
(* arguments if there are several of a name: what comparing lists of       *)
(* applications calls a change is not a matter of single steps.            *)
OfApplication(c) ==
  \/ c.ct \in {"DIRECTIVE_CHANGED", "DIRECTIVE_ARGUMENT_VALUE_CHANGED"}
  \/ c.ct \in {"DIRECTIVE_REMOVED", "DIRECTIVE_ARGUMENT_REMOVED"} /\ c.crit # B
(* The grave changes of a report: where, and how grave *)
Grave(r) == {<<r[i].path, Rank(r[i].crit)>> : i \in {j \in DOMAIN r : r[j].crit # N /\ ~OfApplication(r[j])}}

(* A change to something shows there, at what it is part of or, when parts *)
(* of an input type come one by one, at a part of it; root operations may  *)
(* hang on any type.                                                       *)
PartOf(p, q) == p = q \/ StartsWith(p, q \o ".")
Related(p, q) == PartOf(p, q) \/ PartOf(q, p) \/ p = ""
AccountedFor(c, steps) == \E d \in steps : d[2] >= c[2] /\ Related(c[1], d[1])

(* the changes of the way from i to k for which no step by j accounts *)
Unaccounted(at, i, j, k) == {c \in at[i][k] : ~AccountedFor(c, at[i][j] \union at[j][k])}
Composes(at) == \A i, j, k \in DOMAIN at : Unaccounted(at, i, j, k) = {}

Worst(at, i, k) == IF at[i][k] = {} THEN 0 ELSE IF \E c \in at[i][k] : c[2] = 2 THEN 2 ELSE 1
(* in particular: steps that are not breaking never add up to one that is *)
StepsAddUp(at) == \A i, j, k \in DOMAIN at : Worst(at, i, k) <= 1 \/ Worst(at, i, j) = 2 \/ Worst(at, j, k) = 2
=============================================================================
