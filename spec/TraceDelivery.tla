--------------------------- MODULE TraceDelivery ---------------------------
(***************************************************************************)
(* Validates runs of the commands on the cases of MC_Delivery: PROP is L10 *)
(* or C13 (status and count), L09 or C12 (the lines) or I01 (all of it).   *)
(* `order` is the order of the files in the output, a witness.             *)
(***************************************************************************)
EXTENDS Delivery, CliText, Notes, IOUtils, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE)
PROP == IOEnv.PROP

VARIABLES l, bad
vars == <<l, bad>>

Verdict(e) ==
  /\ Len(e.verdicts) = 1
  /\ LET v == e.verdicts[1]  n == Total(e.case) IN
     IF e.case.cmd = "lint" THEN IF n = 0 THEN Lead(v, NO_LINT_ERRORS) ELSE Ends(v, LINT_ERRORS \o ToString(n))
     ELSE IF n = 0 THEN Lead(v, NO_CHANGES) ELSE Ends(v, BREAKING \o ToString(n))
Status(e) == e.status = (IF Total(e.case) = 0 THEN 0 ELSE 1)
Lines(e) == LET c == e.case IN
            e.lines = (IF c.errors = 0 THEN <<>> ELSE AllLines(c, e.order, e.names)) /\ (c.errors > 0 => Len(e.order) = c.files)
Holds(e) == e.crash = "" /\ CASE PROP \in {"L10", "C13"} -> Verdict(e) /\ Status(e)
                              [] PROP \in {"L09", "C12"} -> Lines(e)
                              [] OTHER -> Verdict(e) /\ Status(e) /\ Lines(e)

Init == l = 1 /\ bad = 0 /\ TLCSet(2, 0)
Consume ==
  /\ l <= Len(Trace)
  /\ \E e \in {Trace[l]} : \E ok \in {Holds(e)} :
     /\ TLCSet(2, TLCGet(2) + Len(e.lines))
     /\ IF ok THEN TRUE ELSE Note("REJECT", [id |-> e.id, case |-> e.case, crash |-> e.crash, status |-> e.status, verdicts |-> e.verdicts, nlines |-> Len(e.lines),
                                            first |-> SubSeq(e.lines, 1, IF Len(e.lines) < 5 THEN Len(e.lines) ELSE 5)])
     /\ bad' = bad + (IF ok THEN 0 ELSE 1)
  /\ l' = l + 1
  /\ IF l < Len(Trace) THEN TRUE ELSE Note("STATS", [events |-> Len(Trace), telling |-> Len(Trace), lines |-> TLCGet(2)])

Spec == Init /\ [][Consume]_vars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
