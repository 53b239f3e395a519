----------------------------- MODULE TraceScan -----------------------------
(***************************************************************************)
(* Validates recorded runs of the linter on one text: raw is what the      *)
(* rules found, out what was left after inline configuration.              *)
(***************************************************************************)
EXTENDS LintScan, LintOrder, Notes, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, bad
vars == <<l, bad>>

Holds(e, cs) == /\ e.crash = ""
                /\ SameErrors(Kept(cs, e.raw), e.out)
                /\ Ascending(e.out)

Init == l = 1 /\ bad = 0 /\ TLCSet(2, 0) /\ TLCSet(3, [k \in {"disable", "enable", "line", "dropped", "kept"} |-> 0])

Count(e, cs) ==
  /\ TLCSet(2, TLCGet(2) + (IF cs # <<>> /\ e.raw # <<>> THEN 1 ELSE 0))
  /\ TLCSet(3, [k \in DOMAIN TLCGet(3) |-> TLCGet(3)[k] +
        CASE k = "dropped" -> Len(e.raw) - Len(Kept(cs, e.raw)) [] k = "kept" -> Len(Kept(cs, e.raw))
          [] OTHER -> Len(SelectSeq(cs, LAMBDA x : x.cmd = k))])

Consume ==
  /\ l <= Len(Trace)
  /\ \E e \in {Trace[l]} : \E cs \in {Configs(e.text)} : \E ok \in {Holds(e, cs)} :
     /\ \E c \in {Count(e, cs)} : c
     /\ IF ok THEN TRUE ELSE Note("REJECT", [id |-> e.id, crash |-> e.crash, kept |-> Kept(cs, e.raw), out |-> e.out])
     /\ bad' = bad + (IF ok THEN 0 ELSE 1)
  /\ l' = l + 1
  /\ IF l < Len(Trace) THEN TRUE ELSE Note("STATS", [events |-> Len(Trace), telling |-> TLCGet(2), configuration |-> TLCGet(3)])

Spec == Init /\ [][Consume]_vars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
