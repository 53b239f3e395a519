---------------------------- MODULE MC_Delivery ----------------------------
(***************************************************************************)
(* Reading the input: a file is opened, its pieces arrive one after the    *)
(* other, and only at its end is it closed and taken into account; never   *)
(* more than one file is open. Then every file counts with all its pieces, *)
(* whatever their number. Every start is a case for the real commands.     *)
(***************************************************************************)
EXTENDS Delivery, Notes, IOUtils, TLC

SIZE == IF IOEnv.SIZE = "large" THEN 2 ELSE 1
(* [cmd, way, files, errors, pieces, width, pad, handles]                  *)
C(cmd, way, files, errors, pieces, width, pad, handles) ==
  [cmd |-> cmd, way |-> way, files |-> files, errors |-> errors, pieces |-> pieces, width |-> width, pad |-> pad, handles |-> handles]
CMDS == {"lint", "compare"}
SOMEPIECES == {1, 2, 3, 7}
COUNTS == {0, 1, 9, 10, 11, 99, 100, 101, 127, 128, 129, 255, 256, 257, 512} \union (IF SIZE = 2 THEN {999, 1000, 1001, 1023, 1024, 1025, 4096, 10000} ELSE {1000})
WIDTHS == {4095, 4096, 4097, 65535, 65536, 65537, 200000} \union (IF SIZE = 2 THEN {1048575, 1048576, 1048577, 5000000} ELSE {1100000})
PADS == {98, 255, 256, 998, 9998, 32767, 65535, 70000} \union (IF SIZE = 2 THEN {99998, 999998} ELSE {})
CASES ==
  (* in pieces, on standard input or through named pipes *)
     {C("lint", "stdin", 1, e, p, w, 0, 0) : e \in {0, 1, 12}, p \in SOMEPIECES, w \in {0, 5000, 70000}}
  \union {C(cmd, "fifo", f, e, p, w, 0, 0) : cmd \in CMDS, f \in {1, 2}, e \in {0, 3}, p \in {1, 3}, w \in {0, 70000}}
  \union {C("lint", "device", 1, e, p, w, 0, 0) : e \in {0, 3}, p \in {1, 3}, w \in {0, 70000}}
  (* much of everything *)
  \union {C(cmd, "file", 1, e, 1, 0, 0, 0) : cmd \in CMDS, e \in COUNTS}
  \union {C(cmd, "file", f, e, 1, 0, 0, 0) : cmd \in CMDS, f \in {3, 11, 64, 65, 256, 257}, e \in {0, 1, 2}}
  \union {C(cmd, "file", 1, e, 1, w, 0, 0) : cmd \in CMDS, e \in {0, 3}, w \in WIDTHS}
  \union {C(cmd, "file", 1, 3, 1, 0, p, 0) : cmd \in CMDS, p \in PADS}
  (* more files than may be open at once *)
  \union {C(cmd, "file", f, e, 1, 0, 0, 40) : cmd \in CMDS, f \in {60, 300}, e \in {0, 1}}

VARIABLES c, at, got, open, counted, done
vars == <<c, at, got, open, counted, done>>

Init == c \in CASES /\ at = 1 /\ got = 0 /\ open = 0 /\ counted = 0 /\ done = FALSE
Open == ~done /\ at <= c.files /\ open = 0 /\ open' = 1 /\ got' = 0 /\ UNCHANGED <<c, at, counted, done>>
Arrive == open = 1 /\ got < c.pieces /\ got' = got + 1 /\ UNCHANGED <<c, at, open, counted, done>>
Close == open = 1 /\ got = c.pieces /\ open' = 0 /\ got' = 0 /\ counted' = counted + c.errors /\ at' = at + 1 /\ UNCHANGED <<c, done>>
Conclude == ~done /\ at > c.files /\ done' = TRUE /\ UNCHANGED <<c, at, got, open, counted>>
Next == Open \/ Arrive \/ Close \/ Conclude
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

OneFileOpen == open <= 1
NothingLost == done => counted = Total(c) /\ open = 0
Ends == <>done
Case == at = 1 /\ got = 0 /\ open = 0 /\ ~done => Note("CASE", c @@ [id |-> "delivery"])
=============================================================================
