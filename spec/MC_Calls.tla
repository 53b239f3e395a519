------------------------------ MODULE MC_Calls ------------------------------
(***************************************************************************)
(* All ways two callers can make a few calls each, on two documents. What  *)
(* they call is a case for the real library.                               *)
(***************************************************************************)
EXTENDS Calls, Notes, IOUtils, SequencesExt

LENGTH == IF IOEnv.LENGTH = "3" THEN 3 ELSE 2
DOCS == {"1", "2"}
RULES == {"1", "2", "3", "4", "5", "6", "7", "8", "9"}
CALLS == {<<"rule", r, d>> : r \in RULES, d \in DOCS}
         \union {<<"lint", "all", d>> : d \in DOCS}
         \union {<<"select", s, d>> : s \in {"one", "some", "none"}, d \in {"1"}}
         \union {<<"compare", d, e>> : d \in DOCS, e \in DOCS}
         \union {<<"group", d, e>> : d \in DOCS, e \in DOCS}
Ways(n) == UNION {[1..k -> CALLS] : k \in 1..n}
(* one caller with a few calls; or two with one each *)
PLANS == {<<w>> : w \in Ways(LENGTH)} \union {<<v, w>> : v \in Ways(1), w \in Ways(1)}

VARIABLES plan, done
vars == <<docs, known, busy, plan, done>>

(* the answer: something of the documents called about *)
Answer(c, ds) == <<c[1], c[2], c[3], ds>>

Init == plan = <<>> /\ done = <<>> /\ Start("as parsed")
Choose == /\ plan = <<>>
          /\ plan' \in PLANS
          /\ done' = [i \in DOMAIN plan' |-> 0]
          /\ UNCHANGED calls
Call(i) == /\ done[i] < Len(plan[i])
           /\ Begin(i, plan[i][done[i] + 1])
           /\ UNCHANGED <<plan, done>>
Answered(i) == /\ i \in DOMAIN busy
               /\ End(i, busy[i], Answer(busy[i], docs), docs)
               /\ done' = [done EXCEPT ![i] = @ + 1]
               /\ UNCHANGED plan
Next == Choose \/ \E i \in DOMAIN plan : Call(i) \/ Answered(i)
Spec == Init /\ [][Next]_vars

DocumentsStay == docs = "as parsed"
AnswersAreOfDocuments == \A c \in DOMAIN known : known[c] = Answer(c, docs)
NobodyIsLost == \A i \in DOMAIN plan : done[i] <= Len(plan[i]) /\ (i \in DOMAIN busy => busy[i] = plan[i][done[i] + 1])
Case == (plan # <<>> /\ busy = [w \in {} |-> ""] /\ \A i \in DOMAIN done : done[i] = 0) => Note("CASE", [callers |-> plan])
=============================================================================
