---------------------------- MODULE TraceCompare ----------------------------
(***************************************************************************)
(* Validates recorded comparisons (one per line of the trace) against the  *)
(* specification. PROP selects the property. A line that is not allowed is *)
(* printed and the validation goes on.                                     *)
(***************************************************************************)
EXTENDS CompareViews, GqlClient, Notes, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
PROP == IOEnv.PROP

VARIABLES l, bad
vars == <<l, bad>>

(* Is the recorded step a step of the specification? *)
Allowed(e) ==
  LET x == Changes(e.old, e.new)  y == Changes(e.new, e.old)  r == e.fwd  q == e.bwd IN
  e.crash = "" /\
  CASE PROP = "C01" -> HoldsC01(e.old, e.new, r, q)
    [] PROP = "C02" -> HoldsC02(x, r) /\ HoldsC02(y, q)
    [] PROP = "C03" -> HoldsC03(x, r) /\ HoldsC03(y, q)
    [] PROP = "C04" -> HoldsC04(x, r) /\ HoldsC04(y, q)
    [] PROP = "C05" -> HoldsC05(x, r) /\ HoldsC05(y, q)
    [] PROP = "C06" -> HoldsC06(x, r) /\ HoldsC06(y, q)
    [] PROP = "C07" -> HoldsC07(x, r) /\ HoldsC07(y, q)
    [] PROP = "C08" -> HoldsC08(e.old, e.new, r) /\ HoldsC08(e.new, e.old, q)
    [] PROP = "C09" -> HoldsC09(x, r) /\ HoldsC09(y, q)
    [] PROP = "C10" -> HoldsC10(r, q)
    [] PROP = "C11" -> HoldsC11(x, r) /\ HoldsC11(y, q)

(* Does the step exercise the property? *)
Telling(e) ==
  LET x == Changes(e.old, e.new) IN
  CASE PROP = "C01" -> Equivalent(e.old, e.new) /\ e.old # e.new
    [] PROP = "C02" -> \E i \in DOMAIN x : x[i].cls = "removal"
    [] PROP = "C03" -> \E i \in DOMAIN x : TypeChange(x[i])
    [] PROP = "C04" -> \E i \in DOMAIN x : AddedInput(x[i])
    [] PROP = "C05" -> \E i \in DOMAIN x : Altering(x[i])
    [] PROP = "C06" -> \E i \in DOMAIN x : Adding(x[i]) \/ x[i].ct \in RootCts
    [] PROP = "C08" -> ~IsBreaking(x)
    [] OTHER -> x # <<>>

(* For the reader of a replay: where specification and report differ.      *)
Brief(c) == [ct |-> c.ct, crit |-> c.crit, path |-> c.path, msg |-> c.msg, file |-> c.pos.f, line |-> c.pos.l]
Minus(s, t) == SelectSeq(s, LAMBDA c : CountIn(s, c) # CountIn(t, c))
Diagnosis(e) ==
  LET x == MapSeq(Changes(e.old, e.new), Brief)  y == MapSeq(Changes(e.new, e.old), Brief)
      r == MapSeq(e.fwd, Brief)  q == MapSeq(e.bwd, Brief) IN
  [id |-> e.id, crash |-> e.crash, equivalent |-> Equivalent(e.old, e.new), clientsafe |-> ClientSafe(e.old, e.new),
   specified |-> Minus(x, r), reported |-> Minus(r, x), specifiedReverse |-> Minus(y, q), reportedReverse |-> Minus(q, y)]

(* What keeps the trace itself meaningful; a failure is an error of the    *)
(* machinery, never a verdict.                                             *)
Sane(e) == /\ WellFormed(e.old) /\ WellFormed(e.new)
           /\ e.kind = "same" => Equivalent(e.old, e.new)

Count(e) ==
  LET x == Changes(e.old, e.new)
      h == TLCGet(3)
      cts == {x[i].ct : i \in DOMAIN x} IN
  /\ TLCSet(2, TLCGet(2) + (IF Telling(e) THEN 1 ELSE 0))
  /\ TLCSet(3, [c \in cts \union DOMAIN h |-> (IF c \in DOMAIN h THEN h[c] ELSE 0) + Len(SelectSeq(x, LAMBDA y : y.ct = c))])

Init == /\ l = 1 /\ bad = 0
        /\ TLCSet(2, 0) /\ TLCSet(3, [c \in {} |-> 0])

(* The singleton quantifiers make TLC evaluate each operand once.          *)
Consume ==
  /\ l <= Len(Trace)
  /\ \E e \in {Trace[l]} : \E ok \in {Allowed(e)} :
     /\ \E s \in {Sane(e)} : Assert(s, <<"INSANE", e.id>>)
     /\ \E c \in {Count(e)} : c
     /\ IF ok THEN TRUE ELSE Note("REJECT", Diagnosis(e))
     /\ bad' = bad + (IF ok THEN 0 ELSE 1)
  /\ l' = l + 1
  /\ IF l < Len(Trace) THEN TRUE ELSE Note("STATS", [events |-> Len(Trace), telling |-> TLCGet(2), changes |-> TLCGet(3)])

Spec == Init /\ [][Consume]_vars

TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
