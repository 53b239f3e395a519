----------------------------- MODULE TraceRules -----------------------------
(***************************************************************************)
(* Validates recorded runs of the lint rules: per line a document and what *)
(* each rule reported for it.                                              *)
(***************************************************************************)
EXTENDS LintRules, Notes, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
PROP == IOEnv.PROP

VARIABLES l, bad
vars == <<l, bad>>

Scope == CASE PROP = "L01" -> {"type-desc", "field-desc", "args-desc", "enum-desc"}
           [] PROP = "L02" -> {"type-caps", "field-camel", "enum-caps"}
           [] PROP = "L03" -> {"relay-conn-type"}
           [] PROP = "L04" -> {"relay-conn-args"}
           [] OTHER -> {RULES[i] : i \in DOMAIN RULES}

(* errs is what each rule reported on its own (by: the rule that was run,  *)
(* as the tool lists it), all what the linter reported with all rules.     *)
View(e) == IF PROP = "L09" THEN <<e.rule, e.l, e.c, e.msg>> ELSE <<e.rule, e.text>>
Alone(e, rule) == SelectSeq(e.errs, LAMBDA x : x.by = rule)
Together(e, rule) == SelectSeq(e.all, LAMBDA x : x.rule = rule)
Holds(e) ==
  /\ e.crash = ""
  /\ \A rule \in Scope : \E x \in {MapSeq(Report(rule, e.doc), View)} :
       /\ SameBag(x, MapSeq(Alone(e, rule), View))
       /\ SameBag(x, MapSeq(Together(e, rule), View))

Init == l = 1 /\ bad = 0 /\ TLCSet(2, 0) /\ TLCSet(3, [k \in Scope |-> 0])

Count(e) ==
  /\ TLCSet(2, TLCGet(2) + (IF \E r \in Scope : Report(r, e.doc) # <<>> THEN 1 ELSE 0))
  /\ TLCSet(3, [k \in Scope |-> TLCGet(3)[k] + Len(Report(k, e.doc))])

Consume ==
  /\ l <= Len(Trace)
  /\ \E e \in {Trace[l]} : \E ok \in {Holds(e)} :
     /\ \E s \in {WellFormed(e.doc)} : Assert(s, <<"INSANE", e.id>>)
     /\ \E c \in {Count(e)} : c
     /\ IF ok THEN TRUE ELSE Note("REJECT", [id |-> e.id, crash |-> e.crash, specified |-> Reports(SelectSeq(RULES, LAMBDA r : r \in Scope), e.doc),
                                            reported |-> SelectSeq(e.errs, LAMBDA x : x.by \in Scope),
                                            together |-> SelectSeq(e.all, LAMBDA x : x.rule \in Scope)])
     /\ bad' = bad + (IF ok THEN 0 ELSE 1)
  /\ l' = l + 1
  /\ IF l < Len(Trace) THEN TRUE ELSE Note("STATS", [events |-> Len(Trace), telling |-> TLCGet(2), errors |-> TLCGet(3)])

Spec == Init /\ [][Consume]_vars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
