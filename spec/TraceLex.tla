------------------------------ MODULE TraceLex ------------------------------
(***************************************************************************)
(* Validates recorded runs of the tokenizer: per line a text and the       *)
(* tokens the linter's tokenizer (gql) and the schema parser's (ref)       *)
(* returned call by call. Each returned token must be the one ReadToken    *)
(* allows in the state reached by the calls before it.                     *)
(***************************************************************************)
EXTENDS Lexer, Notes, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, bad
vars == <<l, bad>>

Shape(tok) == [k |-> tok.k, v |-> tok.v, s |-> tok.s, e |-> tok.e, l |-> tok.l, c |-> tok.c]

(* How many calls are as specified, up to the first that is not            *)
RECURSIVE Run(_, _, _, _, _)
Run(t, st, toks, i, comments) ==
  IF i > Len(toks) THEN i - 1
  ELSE LET r == ReadToken(t, st) IN
       IF r.tok.k = "Comment" /\ ~comments THEN Run(t, r.st, toks, i, comments)
       ELSE IF Shape(toks[i]) # r.tok THEN i - 1
       ELSE IF Final(r.tok) THEN i
       ELSE Run(t, r.st, toks, i + 1, comments)

Complete(toks) == toks # <<>> /\ Final(toks[Len(toks)])

Init == l = 1 /\ bad = 0 /\ TLCSet(2, [k \in {} |-> 0])

Count(toks) ==
  LET h == TLCGet(2)  ks == {toks[i].k : i \in DOMAIN toks} IN
  TLCSet(2, [k \in ks \union DOMAIN h |-> (IF k \in DOMAIN h THEN h[k] ELSE 0) + Len(SelectSeq(toks, LAMBDA x : x.k = k))])

Consume ==
  /\ l <= Len(Trace)
  /\ \E e \in {Trace[l]} : \E n \in {Run(e.text, START, e.gql, 1, TRUE)} : \E m \in {Run(e.text, START, e.ref, 1, FALSE)} :
     \E ok \in {e.crash = "" /\ n = Len(e.gql) /\ Complete(e.gql)} :
     /\ Assert(m = Len(e.ref) /\ Complete(e.ref), <<"the specification does not describe the schema parser", e.id, e.text, e.ref, m>>)
     /\ \E c \in {Count(e.gql)} : c
     /\ IF ok THEN TRUE ELSE Note("REJECT", [id |-> e.id, crash |-> e.crash, asSpecified |-> n, specified |-> Tokens(e.text), got |-> e.gql])
     /\ bad' = bad + (IF ok THEN 0 ELSE 1)
  /\ l' = l + 1
  /\ IF l < Len(Trace) THEN TRUE ELSE Note("STATS", [events |-> Len(Trace), telling |-> Len(Trace), tokens |-> TLCGet(2)])

Spec == Init /\ [][Consume]_vars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
