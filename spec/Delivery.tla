------------------------------ MODULE Delivery ------------------------------
(***************************************************************************)
(* Input on a large scale and in pieces: so and so many files, each with   *)
(* so and so many things to report after so and so many lines, arriving as *)
(* files, through named pipes or on standard input, in one piece or in     *)
(* several. What is reported does not depend on how the input arrives.     *)
(*                                                                         *)
(* File f consists of `pad` empty lines, a line of `width` characters, and *)
(* `errors` lines `type TfxJ`. For lint each of these is an error; compare *)
(* compares the files with what they are without these lines.              *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt

Name(f, j) == "T" \o ToString(f) \o "x" \o ToString(j)
LintLine(c, name, f, j) == name \o ":" \o ToString(c.pad + 1 + j) \o ":6 type " \o Name(f, j) \o " does not have description"
CompareLine(c, name, f, j) == name \o ":" \o ToString(c.pad + 1 + j) \o " Type '" \o Name(f, j) \o "' was removed"
Line(c, name, f, j) == IF c.cmd = "lint" THEN LintLine(c, name, f, j) ELSE CompareLine(c, name, f, j)

(* What is printed if the files (names, numbers) are taken in this order   *)
RECURSIVE AllLines(_, _, _)
AllLines(c, order, names) ==
  IF order = <<>> THEN <<>>
  ELSE [j \in 1..c.errors |-> Line(c, names[Head(order)], Head(order), j)] \o AllLines(c, Tail(order), names)
Total(c) == c.files * c.errors
=============================================================================
