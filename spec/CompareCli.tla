----------------------------- MODULE CompareCli -----------------------------
(***************************************************************************)
(* `gql compare` as a whole: what is printed for a list of changes under   *)
(* the two display options, and how it ends. A change here is              *)
(* [crit, rank, line, pos, text]: rank orders its file, pos is file:line.  *)
(***************************************************************************)
EXTENDS GqlCompare, CliText, TLC

GROUPS == <<B, D, N>>
Group(cs, g) == SelectSeq(cs, LAMBDA c : c.crit = g)
Count(cs, g) == Len(Group(cs, g))
Shown(g, onlyBreaking) == g = B \/ ~onlyBreaking

Line(c, hide) == IF hide \/ c.pos = "" THEN c.text ELSE c.pos \o " " \o c.text

Before(a, b) == a.rank < b.rank \/ (a.rank = b.rank /\ a.line < b.line)
Spots(cs) == {<<cs[i].rank, cs[i].line>> : i \in DOMAIN cs}
EarlierThan(cs, c) == Len(SelectSeq(cs, LAMBDA x : Before(x, c)))
SameSpot(cs, c) == SelectSeq(cs, LAMBDA x : x.rank = c.rank /\ x.line = c.line)

(* texts is one of the allowed printings of a group: every change once, in *)
(* the order of files and lines; changes of one line in any order.         *)
Prints(texts, cs, hide) ==
  /\ Len(texts) = Len(cs)
  /\ \A i \in DOMAIN cs :
       LET k == EarlierThan(cs, cs[i])  same == SameSpot(cs, cs[i]) IN
       CountIn(SubSeq(texts, k + 1, k + Len(same)), Line(cs[i], hide)) = CountIn(MapSeq(same, LAMBDA c : Line(c, hide)), Line(cs[i], hide))

Texts(entries, g) == MapSeq(SelectSeq(entries, LAMBDA e : e.g = g), LAMBDA e : e.text)
GroupIndex(g) == CHOOSE i \in 1..3 : GROUPS[i] = g

(* The whole list of entries                                               *)
PrintsAll(entries, cs, onlyBreaking, hide) ==
  /\ \A i \in 1..(Len(entries) - 1) : GroupIndex(entries[i].g) <= GroupIndex(entries[i + 1].g)
  /\ \A i \in 1..3 : LET g == GROUPS[i] IN
       IF Shown(g, onlyBreaking) THEN Prints(Texts(entries, g), Group(cs, g), hide) ELSE Texts(entries, g) = <<>>

(* The closing lines                                                       *)
Verdicts(tail) == SelectSeq(tail, IsVerdict)
Closes(tail, all, breaking) ==
  /\ Len(Verdicts(tail)) = 1
  /\ LET last == tail[Len(tail)] IN
     CASE all = 0 -> Within(last, NO_CHANGES)
       [] breaking = 0 -> Lead(last, NO_BREAKING)
       [] OTHER -> Ends(last, BREAKING \o ToString(breaking))
Exit(breaking) == IF breaking > 0 THEN 1 ELSE 0
=============================================================================
