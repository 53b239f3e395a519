----------------------------- MODULE TraceFault -----------------------------
(***************************************************************************)
(* Validates recorded runs of the tool on the scenarios of MC_Cli: each    *)
(* has to come to one of the outcomes of the specification.                *)
(***************************************************************************)
EXTENDS Cli, CliText, Notes, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, bad
tvars == <<l, bad>>

(* how a message may put it *)
Reasons == [same |-> {"same", "identical"},
            absent |-> {"expects", "required", "missing", "must"},
            novalue |-> {"needs an argument", "expects", "required", "missing"},
            emptyvalue |-> {"expects", "empty", "required", "missing", "not exist", "no match", "needs an argument", "same"},
            nomatch |-> {"not exist", "no match", "not match", "not found", "no such file", "No match", "matched no", "matches no"},
            badpattern |-> {"syntax error in pattern", "pattern"}]
Why(e, f) == IF f.file = 0 THEN Reasons[f.what] ELSE {e.why[f.side][f.file]}
Names(e, f) == IF f.file = 0 THEN {e.path[f.side]} ELSE {e.name[f.side][f.file]}
(* paths that were not given cannot be named *)
Nameless(f) == f.what \in OptionFaults

Cites(e, f) == /\ \E w \in Why(e, f) : Within(e.text, w)
               /\ Nameless(f) \/ \E n \in Names(e, f) : Within(e.text, n)

Judged(e) == Len(SelectSeq(e.lines, IsVerdict))
Matches(e, o) ==
  /\ e.crash = ""
  /\ IF o.ok THEN e.status \in {0, 1} /\ Judged(e) = 1
     ELSE e.status # 0 /\ Judged(e) = 0 /\ Cites(e, o.cites)
Holds(e) == \E o \in Outcomes(e.sc) : Matches(e, o)

TInit == l = 1 /\ bad = 0 /\ sc = <<>> /\ phase = "" /\ todo = {} /\ res = <<>> /\ TLCSet(2, 0) /\ TLCSet(3, [k \in {"faults", "lint", "compare"} |-> 0])
Tally(e) == /\ TLCSet(2, TLCGet(2) + (IF FaultsOf(e.sc) # {} THEN 1 ELSE 0))
            /\ TLCSet(3, [k \in DOMAIN TLCGet(3) |-> TLCGet(3)[k] + IF k = "faults" THEN Cardinality(FaultsOf(e.sc)) ELSE IF e.sc.cmd = k THEN 1 ELSE 0])

Consume ==
  /\ l <= Len(Trace)
  /\ \E e \in {Trace[l]} : \E ok \in {Holds(e)} :
     /\ \E c \in {Tally(e)} : c
     /\ IF ok THEN TRUE ELSE Note("REJECT", [id |-> e.id, scenario |-> e.sc, status |-> e.status, text |-> e.text])
     /\ bad' = bad + (IF ok THEN 0 ELSE 1)
  /\ l' = l + 1 /\ UNCHANGED vars
  /\ IF l < Len(Trace) THEN TRUE ELSE Note("STATS", [events |-> Len(Trace), telling |-> TLCGet(2), scenarios |-> TLCGet(3)])

TSpec == TInit /\ [][Consume]_<<l, bad, sc, phase, todo, res>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
