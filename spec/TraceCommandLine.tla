-------------------------- MODULE TraceCommandLine --------------------------
(***************************************************************************)
(* Validates recorded command lines: what the tool did is what was asked   *)
(* for. An event has argv, how that ended (status, out, err), and plain,   *)
(* the plain command line tried for comparison, with how that ended.       *)
(***************************************************************************)
EXTENDS CommandLine, CliText, Notes, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, bad
vars == <<l, bad>>

NoVerdict(e) == ~IsVerdict(e.got.out) /\ ~IsVerdict(e.got.err)
Holds(e, a) ==
  /\ e.got.crash = ""
  /\ CASE a.what = "run" -> e.plain = a.plain /\ e.got.status = e.want.status /\ e.got.out = e.want.out
       [] a.what = "help" -> e.got.status = 0 /\ NoVerdict(e) /\ Contains(e.got.out, "Usage:")
       [] a.what = "refused" -> e.got.status \notin {0} /\ NoVerdict(e) /\ (Contains(e.got.out, a.wrong) \/ Contains(e.got.err, a.wrong))

Init == l = 1 /\ bad = 0 /\ TLCSet(3, [k \in {"run", "help", "refused"} |-> 0])
Tally(a) == TLCSet(3, [TLCGet(3) EXCEPT ![a.what] = @ + 1])

Consume ==
  /\ l <= Len(Trace)
  /\ \E e \in {Trace[l]} : \E a \in {Asked(e.argv)} : \E ok \in {Holds(e, a)} :
     /\ \E c \in {Tally(a)} : c
     /\ IF ok THEN TRUE ELSE Note("REJECT", [id |-> e.id, argv |-> e.argv, asked |-> a, got |-> e.got, plain |-> e.plain, want |-> e.want])
     /\ bad' = bad + (IF ok THEN 0 ELSE 1)
  /\ l' = l + 1
  /\ IF l < Len(Trace) THEN TRUE ELSE Note("STATS", [events |-> Len(Trace), telling |-> Len(Trace), asked |-> TLCGet(3)])

Spec == Init /\ [][Consume]_vars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
