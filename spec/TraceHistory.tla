---------------------------- MODULE TraceHistory ----------------------------
(***************************************************************************)
(* Validates recorded comparisons of all versions of a history with each   *)
(* other.                                                                  *)
(***************************************************************************)
EXTENDS History, Notes, IOUtils, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, bad
vars == <<l, bad>>

Graves(e) == TLCEval([i \in DOMAIN e.at |-> TLCEval([k \in DOMAIN e.at[i] |-> TLCEval(Grave(e.at[i][k]))])])
Allowed(e, at) == e.crash = "" /\ Composes(at) /\ StepsAddUp(at)

(* For the reader of a replay: a way round a grave change *)
Ways(at) == {w \in (DOMAIN at) \X (DOMAIN at) \X (DOMAIN at) : Unaccounted(at, w[1], w[2], w[3]) # {}}
Diagnosis(e, at) ==
  [id |-> e.id, crash |-> e.crash,
   way |-> IF Ways(at) = {} THEN <<>> ELSE LET w == CHOOSE w \in Ways(at) : TRUE IN
     <<[from |-> w[1], by |-> w[2], to |-> w[3], direct |-> e.at[w[1]][w[3]], first |-> e.at[w[1]][w[2]], second |-> e.at[w[2]][w[3]]]>>]

(* Some way has a grave change, and two steps that each differ *)
Telling(at) == \E i, j, k \in DOMAIN at : at[i][k] # {} /\ at[i][j] # {} /\ at[j][k] # {}

Init == l = 1 /\ bad = 0 /\ TLCSet(2, 0) /\ TLCSet(3, 0)
Count(e, at) == /\ TLCSet(2, TLCGet(2) + (IF Telling(at) THEN 1 ELSE 0))
                /\ TLCSet(3, TLCGet(3) + Len(at) * Len(at) * Len(at))

Consume ==
  /\ l <= Len(Trace)
  /\ \E e \in {Trace[l]} : \E at \in {Graves(e)} : \E ok \in {Allowed(e, at)} :
     /\ \E c \in {Count(e, at)} : c
     /\ IF ok THEN TRUE ELSE Note("REJECT", Diagnosis(e, at))
     /\ bad' = bad + (IF ok THEN 0 ELSE 1)
  /\ l' = l + 1
  /\ IF l < Len(Trace) THEN TRUE ELSE Note("STATS", [events |-> Len(Trace), telling |-> TLCGet(2), ways |-> [all |-> TLCGet(3)]])

Spec == Init /\ [][Consume]_vars

TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
