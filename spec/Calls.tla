------------------------------- MODULE Calls -------------------------------
(***************************************************************************)
(* Using the library from a program: callers compare and lint documents    *)
(* they share, at the same time. A call is named by what it does and to    *)
(* which documents; its answer is a matter of the documents alone, and no  *)
(* call changes a document.                                                *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

VARIABLES docs,     \* the documents
          known,    \* the answers given so far, by call
          busy      \* who waits for the answer to what
calls == <<docs, known, busy>>

Start(ds) == docs = ds /\ known = [c \in {} |-> ""] /\ busy = [w \in {} |-> ""]

Begin(w, c) == /\ w \notin DOMAIN busy
               /\ busy' = (w :> c) @@ busy
               /\ UNCHANGED <<docs, known>>

End(w, c, answer, after) ==
  /\ w \in DOMAIN busy /\ busy[w] = c
  /\ c \in DOMAIN known => answer = known[c]
  /\ after = docs
  /\ known' = (c :> answer) @@ known
  /\ busy' = [v \in (DOMAIN busy) \ {w} |-> busy[v]]
  /\ UNCHANGED docs

(* An answer once given stays, whatever is called later. *)
Again(c, answer) == c \in DOMAIN known /\ answer = known[c] /\ UNCHANGED calls
=============================================================================
