----------------------------- MODULE TraceRuns -----------------------------
(***************************************************************************)
(* Validates groups of runs: C14, the runs of one command on one input are *)
(* indistinguishable; L11, every run on parsable input ends normally.      *)
(***************************************************************************)
EXTENDS CliText, Notes, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
PROP == IOEnv.PROP

VARIABLES l, bad
vars == <<l, bad>>

Normal(r) == r.crash = "" /\ r.status \in {0, 1}
Holds(e) ==
  CASE PROP = "C14" -> \A i \in DOMAIN e.runs : e.runs[i] = e.runs[1]
    [] PROP = "L11" -> e.crash = "" /\ \A i \in DOMAIN e.runs : Normal(e.runs[i]) /\ IsVerdict(e.runs[i].out)

Init == l = 1 /\ bad = 0 /\ TLCSet(3, [k \in {} |-> 0])
Tally(e) == LET h == TLCGet(3) IN TLCSet(3, [k \in DOMAIN h \union {e.what} |-> (IF k \in DOMAIN h THEN h[k] ELSE 0) + (IF k = e.what THEN 1 ELSE 0)])

Consume ==
  /\ l <= Len(Trace)
  /\ \E e \in {Trace[l]} : \E ok \in {Holds(e)} :
     /\ \E c \in {Tally(e)} : c
     /\ IF ok THEN TRUE ELSE Note("REJECT", [id |-> e.id, what |-> e.what, runs |-> e.runs, crash |-> IF PROP = "L11" THEN e.crash ELSE ""])
     /\ bad' = bad + (IF ok THEN 0 ELSE 1)
  /\ l' = l + 1
  /\ IF l < Len(Trace) THEN TRUE ELSE Note("STATS", [events |-> Len(Trace), telling |-> Len(Trace), kinds |-> TLCGet(3)])

Spec == Init /\ [][Consume]_vars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
