---------------------------- MODULE TraceLintCli ----------------------------
(***************************************************************************)
(* Validates recorded runs of `gql lint`. Per line: the files a pattern    *)
(* matches (or standard input), the values of the rules option, exit       *)
(* status and printed lines. PROP selects what has to hold.                *)
(***************************************************************************)
EXTENDS LintCli, Notes, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
PROP == IOEnv.PROP

VARIABLES l, bad
vars == <<l, bad>>

(* The printed lines: those of errors are the ones that start with a file. *)
OfFile(e, line) == {i \in DOMAIN e.files : Lead(line, e.files[i].name \o ":")}
Printed(e) == SelectSeq(e.lines, LAMBDA x : OfFile(e, x) # {})
Verdicts(e) == SelectSeq(e.lines, IsVerdict)
Ran(e) == e.crash = ""

(* The same lines, each as often                                           *)
SameLines(e, rows) == SameBag(MapSeq(rows, LAMBDA r : r.line), Printed(e))

(* Errors of a file are printed together, in ascending order.              *)
InOrder(e, rows) ==
  LET got == Printed(e)
      at(i) == LET k == CHOOSE k \in DOMAIN rows : rows[k].line = got[i] IN rows[k] IN
  \A i \in 1..(Len(got) - 1) :
    LET a == at(i)  b == at(i + 1) IN
    IF a.f = b.f THEN a.l < b.l \/ (a.l = b.l /\ a.c <= b.c)
    ELSE \A j \in (i + 1)..Len(got) : at(j).f # a.f

Verdict(e, n) == IF n = 0 THEN Len(Verdicts(e)) = 1 /\ Lead(Verdicts(e)[1], NO_LINT_ERRORS)
                 ELSE Len(Verdicts(e)) = 1 /\ Ends(Verdicts(e)[1], LINT_ERRORS \o ToString(n))
(* It is the last line.                                                    *)
Closing(e) == e.lines # <<>> /\ IsVerdict(e.lines[Len(e.lines)])

Refused(e) == e.status # 0 /\ Printed(e) = <<>> /\ Verdicts(e) = <<>>
              /\ \E i \in DOMAIN Unknown(e.sel) : \E n \in DOMAIN e.names : FoldCase(e.names[n].cp) = Unknown(e.sel)[i] /\ Within(e.out, e.names[n].given)

Holds(e, rows) ==
  /\ Ran(e)
  /\ IF Unknown(e.sel) # <<>> THEN PROP = "L05" => Refused(e)
     ELSE CASE PROP = "L05" -> SameLines(e, rows) /\ e.status \in {0, 1}
            [] PROP = "L09" -> SameLines(e, rows) /\ InOrder(e, rows)
            [] PROP = "L10" -> /\ e.status = (IF rows = <<>> THEN 0 ELSE 1)
                               /\ Verdict(e, Len(rows)) /\ Closing(e)
                               /\ Len(Printed(e)) = Len(rows)
            [] PROP = "I01" -> SameLines(e, rows) /\ InOrder(e, rows) /\ e.status = (IF rows = <<>> THEN 0 ELSE 1)

Init == l = 1 /\ bad = 0 /\ TLCSet(2, 0) /\ TLCSet(3, [k \in {"printed", "refused", "clean", "files", "stdin"} |-> 0])

Count(e, rows) ==
  /\ TLCSet(2, TLCGet(2) + (IF rows # <<>> \/ Unknown(e.sel) # <<>> THEN 1 ELSE 0))
  /\ TLCSet(3, [k \in DOMAIN TLCGet(3) |-> TLCGet(3)[k] +
        CASE k = "printed" -> Len(rows) [] k = "refused" -> (IF Unknown(e.sel) # <<>> THEN 1 ELSE 0)
          [] k = "clean" -> (IF rows = <<>> THEN 1 ELSE 0) [] k = "files" -> Len(e.files) [] OTHER -> (IF e.stdin THEN 1 ELSE 0)])

Consume ==
  /\ l <= Len(Trace)
  /\ \E e \in {Trace[l]} : \E rows \in {IF Unknown(e.sel) # <<>> THEN <<>> ELSE Rows(e.files, e.sel)} : \E ok \in {Holds(e, rows)} :
     /\ Assert(e.plan \in {-1, Len(rows)}, <<"the case is not what it was made to be", e.id, rows>>)
     /\ \E c \in {Count(e, rows)} : c
     /\ IF ok THEN TRUE ELSE Note("REJECT", [id |-> e.id, crash |-> e.crash, status |-> e.status, specified |-> rows, lines |-> e.lines])
     /\ bad' = bad + (IF ok THEN 0 ELSE 1)
  /\ l' = l + 1
  /\ IF l < Len(Trace) THEN TRUE ELSE Note("STATS", [events |-> Len(Trace), telling |-> TLCGet(2), runs |-> TLCGet(3)])

Spec == Init /\ [][Consume]_vars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
