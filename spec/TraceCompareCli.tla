-------------------------- MODULE TraceCompareCli --------------------------
(***************************************************************************)
(* Validates recorded runs of `gql compare` and of the library's Report    *)
(* functions. PROP is C12 (printing), C13 (verdict and status) or I01      *)
(* (many files as one schema).                                             *)
(***************************************************************************)
EXTENDS CompareCli, Notes, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
PROP == IOEnv.PROP

VARIABLES l, bad
vars == <<l, bad>>

(* C12: the printed entries are the changes the library finds              *)
HoldsC12(e) ==
  /\ e.crash = ""
  /\ \A i \in DOMAIN e.runs : LET r == e.runs[i] IN r.crash = "" /\ PrintsAll(r.entries, e.lib, r.b, r.e)
  /\ \A i \in DOMAIN e.rep : LET r == e.rep[i] IN
       /\ r.ret = Count(e.lib, r.g) /\ Len(r.entries) = r.ret
       /\ \A k \in DOMAIN r.entries : r.entries[k].g = r.g
       /\ Prints(Texts(r.entries, r.g), Group(e.lib, r.g), ~r.paths)
  /\ SameBag(e.group, MapSeq(e.lib, LAMBDA c : <<c.crit, c.crit, c.text>>))

(* C13: status and verdict are those of the specified changes, whatever    *)
(* the display options; the options only choose what is shown.             *)
HoldsC13(e, x) ==
  LET breaking == Count(x, B) IN
  \A i \in DOMAIN e.runs : LET r == e.runs[i] IN
    /\ r.crash = ""
    /\ r.status = Exit(breaking)
    /\ Closes(r.tail, Len(x), breaking)
    /\ SameBag(MapSeq(r.entries, LAMBDA y : y.g), MapSeq(SelectSeq(x, LAMBDA c : Shown(c.crit, r.b)), LAMBDA c : c.crit))
    /\ \A j \in DOMAIN e.runs : LET s == e.runs[j] IN
         s.e = r.e /\ r.b /\ ~s.b => SameBag(r.entries, SelectSeq(s.entries, LAMBDA y : y.g = B))

(* I01: a pattern means all its files, as one schema                       *)
HoldsI01(e, x) ==
  /\ e.multi.crash = "" /\ e.one.crash = ""
  /\ e.multi.status = e.one.status /\ e.multi.status = Exit(Count(x, B))
  /\ Verdicts(e.multi.tail) = Verdicts(e.one.tail)
  /\ Len(Verdicts(e.multi.tail)) = 1
  /\ SameBag(e.multi.entries, e.one.entries)
  /\ Len(e.multi.entries) = Len(x)

Holds(e, x) == CASE PROP = "C12" -> HoldsC12(e) [] PROP = "C13" -> HoldsC13(e, x) [] PROP = "I01" -> HoldsI01(e, x)

Init == l = 1 /\ bad = 0 /\ TLCSet(2, 0) /\ TLCSet(3, [k \in {B, D, N, "no change"} |-> 0])
Tally(x) == /\ TLCSet(2, TLCGet(2) + (IF x # <<>> THEN 1 ELSE 0))
            /\ TLCSet(3, [k \in DOMAIN TLCGet(3) |-> TLCGet(3)[k] + IF k = "no change" THEN (IF x = <<>> THEN 1 ELSE 0) ELSE Count(x, k)])

Consume ==
  /\ l <= Len(Trace)
  /\ \E e \in {Trace[l]} : \E x \in {Changes(e.old, e.new)} : \E ok \in {Holds(e, x)} :
     /\ \E s \in {WellFormed(e.old) /\ WellFormed(e.new)} : Assert(s, <<"INSANE", e.id>>)
     /\ \E c \in {Tally(x)} : c
     /\ IF ok THEN TRUE ELSE Note("REJECT", [id |-> e.id, specified |-> MapSeq(x, LAMBDA c : <<c.crit, c.pos.f, c.pos.l, c.msg>>),
                                            runs |-> IF PROP = "I01" THEN <<e.multi, e.one>> ELSE e.runs,
                                            reports |-> IF PROP = "C12" THEN e.rep ELSE <<>>])
     /\ bad' = bad + (IF ok THEN 0 ELSE 1)
  /\ l' = l + 1
  /\ IF l < Len(Trace) THEN TRUE ELSE Note("STATS", [events |-> Len(Trace), telling |-> TLCGet(2), changes |-> TLCGet(3)])

Spec == Init /\ [][Consume]_vars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
