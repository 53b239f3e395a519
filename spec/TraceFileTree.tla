--------------------------- MODULE TraceFileTree ---------------------------
(***************************************************************************)
(* Validates recorded runs: the files after a run are those before it, and *)
(* what the tool says does not depend on whether it may write.             *)
(***************************************************************************)
EXTENDS FileTree, Notes, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, bad

Tree(es) == [p \in {es[i].path : i \in DOMAIN es} |-> LET e == es[CHOOSE i \in DOMAIN es : es[i].path = p] IN <<e.kind, e.mode, e.data, e.time>>]
RunHolds(r) == r.crash = "" /\ \E t \in {Tree(r.before)} : \E u \in {Tree(r.after)} : Untouched(t, u)
Same(r, s) == r.status = s.status /\ r.text = s.text
Holds(e) == \A i \in DOMAIN e.runs : RunHolds(e.runs[i]) /\ Same(e.runs[i], e.runs[1])
Why(e) == [i \in DOMAIN e.runs |->
  LET t == Tree(e.runs[i].before)
      u == Tree(e.runs[i].after)
  IN [protected |-> e.runs[i].protected, gone |-> Gone(t, u), new |-> New(t, u), changed |-> Changed(t, u), status |-> e.runs[i].status, text |-> e.runs[i].text]]

Init == l = 1 /\ bad = 0 /\ tree = <<>> /\ open = {}
Consume ==
  /\ l <= Len(Trace)
  /\ \E e \in {Trace[l]} : \E ok \in {Holds(e)} :
     /\ IF ok THEN TRUE ELSE Note("REJECT", [id |-> e.id, what |-> e.what, why |-> Why(e)])
     /\ bad' = bad + (IF ok THEN 0 ELSE 1)
  /\ l' = l + 1 /\ UNCHANGED Files
  /\ IF l < Len(Trace) THEN TRUE ELSE Note("STATS", [events |-> Len(Trace), telling |-> Len(Trace)])

Spec == Init /\ [][Consume]_<<l, bad, tree, open>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
