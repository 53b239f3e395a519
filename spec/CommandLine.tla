---------------------------- MODULE CommandLine ----------------------------
(***************************************************************************)
(* How the words of a command line are read, one after the other, and what *)
(* they ask for: to run a command with certain options, for help, or       *)
(* nothing that makes sense. A word is a string.                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

(* the options of the commands: [long, short, kind]; kinds: text, texts (may be given again), switch *)
HELP == [long |-> "help", short |-> "h", kind |-> "switch"]
OPTIONS == [lint |-> <<[long |-> "filepath", short |-> "f", kind |-> "text"], [long |-> "rules", short |-> "r", kind |-> "texts"], HELP>>,
            compare |-> <<[long |-> "oldversion", short |-> "o", kind |-> "text"], [long |-> "newversion", short |-> "n", kind |-> "text"],
                          [long |-> "breaking-change-only", short |-> "b", kind |-> "switch"],
                          [long |-> "exclude-print-filepath", short |-> "e", kind |-> "switch"], HELP>>,
            gql |-> <<HELP>>]
COMMANDS == {"lint", "compare"}

At(s, i) == SubSeq(s, i, i)
From(s, i) == SubSeq(s, i, Len(s))
Leads(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
Contains(s, x) == \E i \in 1..(Len(s) - Len(x) + 1) : SubSeq(s, i, i + Len(x) - 1) = x
FirstEq(s) == LET is == {i \in 1..Len(s) : At(s, i) = "="} IN IF is = {} THEN 0 ELSE CHOOSE i \in is : \A j \in is : i <= j

TRUES == {"1", "t", "T", "true", "TRUE", "True"}
FALSES == {"0", "f", "F", "false", "FALSE", "False"}

(* A reader: the words ahead; what was set, in order: <<long name, value>>;*)
(* and what is wrong, if something is: the name of the option concerned.   *)
Reader(ws) == [words |-> ws, set |-> <<>>, wrong |-> ""]
Wrong(r, what) == [r EXCEPT !.wrong = what, !.words = <<>>]
Rest(r) == [r EXCEPT !.words = Tail(@)]

Long(cmd, name) == {i \in DOMAIN OPTIONS[cmd] : OPTIONS[cmd][i].long = name}
Short(cmd, c) == {i \in DOMAIN OPTIONS[cmd] : OPTIONS[cmd][i].short = c}
Only(S) == CHOOSE i \in S : TRUE

Set(r, o, v) == IF o.kind = "switch" /\ v \notin TRUES \union FALSES THEN Wrong(r, o.long)
                ELSE [r EXCEPT !.set = Append(@, <<o.long, IF o.kind = "switch" THEN (IF v \in TRUES THEN "true" ELSE "false") ELSE v>>)]

(* r.words starts with a word --name or --name=value *)
ReadLong(cmd, r) ==
  LET w == From(Head(r.words), 3)
      eq == FirstEq(w)
      name == IF eq = 0 THEN w ELSE SubSeq(w, 1, eq - 1)
  IN IF At(w, 1) \in {"-", "="} THEN Wrong(r, w)
     ELSE IF Long(cmd, name) = {} THEN Wrong(r, name)
     ELSE LET o == OPTIONS[cmd][Only(Long(cmd, name))] IN
          IF eq # 0 THEN Set(Rest(r), o, From(w, eq + 1))
          ELSE IF o.kind = "switch" THEN Set(Rest(r), o, "true")
          ELSE IF Len(r.words) = 1 THEN Wrong(r, name)
          ELSE Set(Rest(Rest(r)), o, r.words[2])

(* r.words starts with the word of letters, of which those from the i-th are left *)
RECURSIVE ReadShort(_, _, _, _)
ReadShort(cmd, r, w, i) ==
  IF i > Len(w) \/ r.wrong # "" THEN (IF r.wrong # "" THEN r ELSE Rest(r))
  ELSE IF Short(cmd, At(w, i)) = {} THEN Wrong(r, At(w, i))
  ELSE LET o == OPTIONS[cmd][Only(Short(cmd, At(w, i)))] IN
       IF Len(w) > i + 1 /\ At(w, i + 1) = "=" THEN Set(Rest(r), o, From(w, i + 2))
       ELSE IF o.kind = "switch" THEN ReadShort(cmd, Set(r, o, "true"), w, i + 1)
       ELSE IF Len(w) > i THEN Set(Rest(r), o, From(w, i + 1))
       ELSE IF Len(r.words) = 1 THEN Wrong(r, o.short)
       ELSE Set(Rest(Rest(r)), o, r.words[2])

(* one step of the reader *)
Step(cmd, r) ==
  LET w == Head(r.words) IN
  IF w = "--" THEN [r EXCEPT !.words = <<>>]
  ELSE IF Leads(w, "--") THEN ReadLong(cmd, r)
  ELSE IF Leads(w, "-") /\ Len(w) > 1 THEN ReadShort(cmd, r, w, 2)
  ELSE Rest(r)                                           \* no option: has no meaning

RECURSIVE ReadAll(_, _)
ReadAll(cmd, r) == IF r.words = <<>> THEN r ELSE ReadAll(cmd, Step(cmd, r))

Values(r, name) == LET l == SelectSeq(r.set, LAMBDA s : s[1] = name) IN [i \in DOMAIN l |-> l[i][2]]
Last(r, name) == LET l == Values(r, name) IN IF l = <<>> THEN <<>> ELSE <<l[Len(l)]>>
On(r, name) == Last(r, name) = <<"true">>

(* The plainest way to ask for the same: the last value counts, a switch   *)
(* is on or not there, rules add up.                                       *)
Plain(cmd, r) ==
  LET text(name) == IF Last(r, name) = <<>> THEN <<>> ELSE <<"--" \o name \o "=" \o Last(r, name)[1]>>
      switch(name) == IF On(r, name) THEN <<"--" \o name>> ELSE <<>>
      texts(name) == LET v == Values(r, name) IN [i \in DOMAIN v |-> "--" \o name \o "=" \o v[i]]
  IN <<cmd>> \o (IF cmd = "lint" THEN text("filepath") \o texts("rules")
                 ELSE text("oldversion") \o text("newversion") \o switch("breaking-change-only") \o switch("exclude-print-filepath"))

(* What a command line asks for: [what, plain, wrong]. A word of the tool  *)
(* itself comes first.                                                     *)
Asked(argv) ==
  IF argv = <<>> THEN [what |-> "help", plain |-> <<>>, wrong |-> ""]
  ELSE IF Head(argv) \in COMMANDS THEN
    LET cmd == Head(argv)
        r == ReadAll(cmd, Reader(Tail(argv)))
    IN IF r.wrong # "" THEN [what |-> "refused", plain |-> <<>>, wrong |-> r.wrong]
       ELSE IF On(r, "help") THEN [what |-> "help", plain |-> <<>>, wrong |-> ""]
       ELSE [what |-> "run", plain |-> Plain(cmd, r), wrong |-> ""]
  ELSE IF Head(argv) = "help" THEN [what |-> "help", plain |-> <<>>, wrong |-> ""]
  ELSE IF Leads(Head(argv), "-") /\ Len(argv) = 1 THEN
    LET r == ReadAll("gql", Reader(argv)) IN
    [what |-> IF r.wrong # "" THEN "refused" ELSE "help", plain |-> <<>>, wrong |-> r.wrong]
  ELSE [what |-> "refused", plain |-> <<>>, wrong |-> Head(argv)]
=============================================================================
