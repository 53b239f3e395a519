------------------------------ MODULE MC_Print ------------------------------
(***************************************************************************)
(* All small lists of changes (how critical, in which file, on which line, *)
(* several on one line or the very same kind twice), and lists with all    *)
(* small numbers of changes of each kind. For each list: the printing is   *)
(* determined up to the order within a line; nothing can be lost, repeated *)
(* or moved unnoticed. Every list is a case for the real command.          *)
(***************************************************************************)
EXTENDS CompareCli, Notes, IOUtils

LONGEST == IF IOEnv.DEPTH = "4" THEN 4 ELSE IF IOEnv.DEPTH = "3" THEN 3 ELSE 2
FILES == <<"10.graphql", "9.graphql">>           \* in the order of their names
LINES == <<1, 2, 10>>
NUMBERS == {0, 1, 2, 10, 11}

Kind(i) == [crit |-> GROUPS[(i % 3) + 1], file |-> FILES[((i \div 3) % 2) + 1], line |-> LINES[((i \div 6) % 3) + 1]]
Ks == 0..17

VARIABLES list          \* the changes, in the order in which they are found
Next == \E k \in Ks : Len(list) < LONGEST /\ list' = Append(list, Kind(k))
(* few changes in any order; or many, one after the other *)
Init == \/ list = <<>>
        \/ \E b \in NUMBERS, d \in NUMBERS, n \in NUMBERS :
             list = [i \in 1..(b + d + n) |-> [crit |-> IF i <= b THEN B ELSE IF i <= b + d THEN D ELSE N, file |-> FILES[(i % 2) + 1], line |-> b + d + n + 1 - i]]
Spec == Init /\ [][Next]_list

Ranked(c) == CHOOSE r \in DOMAIN FILES : FILES[r] = c.file
Found == [i \in DOMAIN list |-> [crit |-> list[i].crit, rank |-> Ranked(list[i]), line |-> list[i].line,
                                 pos |-> list[i].file \o ":" \o ToString(list[i].line), text |-> "change " \o ToString(i)]]
Sorted(cs) == SortSeq(cs, Before)
Plain(cs, hide) == MapSeq(cs, LAMBDA c : Line(c, hide))
Without(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
Swapped(s, i) == [s EXCEPT ![i] = s[i + 1], ![i + 1] = s[i]]
Apart(a, b) == a.rank # b.rank \/ a.line # b.line

PrintingIsDetermined ==
  \A g \in {B, D, N} : \E cs \in {Sorted(Group(Found, g))} : \A hide \in BOOLEAN :
    \E p \in {Plain(cs, hide)} :
      /\ Prints(p, Group(Found, g), hide)
      /\ \A i \in DOMAIN p : ~Prints(Without(p, i), Group(Found, g), hide) /\ ~Prints(Append(p, p[i]), Group(Found, g), hide)
      /\ \A i \in 1..(Len(p) - 1) : Prints(Swapped(p, i), Group(Found, g), hide) = ~Apart(cs[i], cs[i + 1])
EverythingIsInOneGroup == Count(Found, B) + Count(Found, D) + Count(Found, N) = Len(list)
OrderDoesNotMatter == \A g \in {B, D, N} : Prints(Plain(Sorted(Group(Reverse(Found), g)), FALSE), Group(Found, g), FALSE)
(* lists that differ in order only are one case *)
InOrder == \A i \in 1..(Len(list) - 1) : LET v(c) == <<GroupIndex(c.crit), Ranked(c), c.line>>  x == v(list[i])  y == v(list[i + 1])
                                         IN x[1] < y[1] \/ (x[1] = y[1] /\ (x[2] < y[2] \/ (x[2] = y[2] /\ x[3] <= y[3])))
Case == (Len(list) > LONGEST \/ InOrder) => Note("CASE", [id |-> "print", changes |-> list])
=============================================================================
