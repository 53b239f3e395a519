----------------------------- MODULE TraceCalls -----------------------------
(***************************************************************************)
(* Validates recorded sessions, event by event. An event that is not a     *)
(* step of Calls is reported and passed over.                              *)
(***************************************************************************)
EXTENDS Calls, Notes, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, bad
vars == <<docs, known, busy, l, bad>>

Init == l = 1 /\ bad = 0 /\ Start(<<>>) /\ TLCSet(2, 0) /\ TLCSet(3, 0)

(* not every return is looked at *)
After(e) == IF e.docs = <<>> THEN docs ELSE e.docs

IsStep(e) ==
  CASE e.e = "session" -> docs' = e.docs /\ known' = [c \in {} |-> ""] /\ busy' = [w \in {} |-> ""]
    [] e.e = "begin" -> Begin(e.w, e.c)
    [] e.e = "end" -> End(e.w, e.c, e.a, After(e))
    [] e.e = "again" -> Again(e.c, e.a)
    [] e.e = "look" -> busy = [w \in {} |-> ""] /\ e.docs = docs /\ UNCHANGED calls
    [] OTHER -> FALSE
(* go on, whatever happened *)
PassOver(e) == /\ busy' = IF e.e = "end" THEN [v \in (DOMAIN busy) \ {e.w} |-> busy[v]] ELSE busy
               /\ UNCHANGED <<docs, known>>

Known(e) == IF e.e \in {"end", "again"} /\ e.c \in DOMAIN known THEN known[e.c] ELSE ""
Consume ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ \E e \in {Trace[l]} :
     /\ \E c \in {TLCSet(2, TLCGet(2) + (IF e.e = "end" /\ e.c \in DOMAIN known THEN 1 ELSE 0)) /\ TLCSet(3, TLCGet(3) + (IF e.e = "session" THEN 1 ELSE 0))} : c
     /\ IF ENABLED (IsStep(e) /\ bad' = bad) THEN IsStep(e) /\ bad' = bad
        ELSE /\ Note("REJECT", [id |-> e.id, event |-> e, before |-> Known(e), documents |-> docs])
             /\ PassOver(e) /\ bad' = bad + 1
  /\ IF l < Len(Trace) THEN TRUE ELSE Note("STATS", [events |-> Len(Trace), telling |-> TLCGet(2), sessions |-> [all |-> TLCGet(3)]])

Spec == Init /\ [][Consume]_vars

TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
