------------------------------ MODULE MC_Lexer ------------------------------
(***************************************************************************)
(* What the lexical grammar of module Lexer guarantees, for every text of  *)
(* at most LENGTH units: a text is written unit by unit.                   *)
(***************************************************************************)
EXTENDS Lexer, FiniteSets, IOUtils

LENGTH == IF IOEnv.LENGTH = "5" THEN 5 ELSE IF IOEnv.LENGTH = "4" THEN 4 ELSE 3
UNITS == {<<97>>, <<48>>, <<45>>, <<46>>, <<SP>>, <<LF>>, <<CR>>, <<HASH>>, <<QT>>, <<QT, QT, QT>>, <<BS>>, <<33>>, <<233>>, <<1>>}

VARIABLES text, n
Init == text = <<>> /\ n = 0
Next == n < LENGTH /\ n' = n + 1 /\ \E u \in UNITS : text' = text \o u
Spec == Init /\ [][Next]_<<text, n>>

Front(s) == SubSeq(s, 1, Len(s) - 1)
Last(s) == s[Len(s)]
IsError(toks) == Last(toks).k = "ERROR"
(* Line ends before an offset: LF, CR, CR LF                               *)
LineEnds(t, upto) == Cardinality({i \in 1..upto : t[i] = LF \/ (t[i] = CR /\ ~(i < Len(t) /\ t[i + 1] = LF))})
INSIGNIFICANT == {TAB, SP, LF, CR, COMMA, BOM}

(* Tokens do not overlap, lie within the text, and only insignificant      *)
(* characters lie between them.                                            *)
CoversText ==
  \E toks \in {Tokens(text)} :
    \A i \in DOMAIN toks : toks[i].k # "ERROR" =>
      LET from == IF i = 1 THEN 0 ELSE toks[i - 1].e + (IF toks[i - 1].k = "String" THEN 1 ELSE IF toks[i - 1].k = "BlockString" THEN 1 ELSE 0)
      IN from <= toks[i].s + 1 /\ toks[i].s <= toks[i].e /\ toks[i].e <= Len(text)
         /\ \A k \in (from + 1)..toks[i].s : text[k] \in INSIGNIFICANT

(* The line of a token is one more than the number of line ends before it  *)
(* (before the end of it, for a block string).                             *)
LinesAreCounted ==
  \E toks \in {Tokens(text)} :
    \A i \in DOMAIN toks : toks[i].k # "ERROR" => toks[i].l = 1 + LineEnds(text, IF toks[i].k = "BlockString" THEN toks[i].e ELSE toks[i].s)

(* Names, numbers and comments are their own text.                         *)
OwnText ==
  \E toks \in {Tokens(text)} :
    \A i \in DOMAIN toks : toks[i].k \in {"Name", "Int", "Float", "Comment"} => toks[i].v = SubSeq(text, toks[i].s + 1, toks[i].e)

(* A comment starts with a hash, goes to the end of its line, and is never *)
(* inside a string: blanking it out changes no other token.                *)
CommentsAreInert ==
  \E toks \in {Tokens(text)} :
    LET in(k) == \E i \in DOMAIN toks : toks[i].k = "Comment" /\ toks[i].s < k /\ k <= toks[i].e IN
    /\ \A i \in DOMAIN toks : toks[i].k = "Comment" => text[toks[i].s + 1] = HASH /\ At(text, toks[i].e + 1) \in CONTROL \union {-1}
    /\ Tokens([k \in DOMAIN text |-> IF in(k) THEN SP ELSE text[k]]) = Significant(toks)

(* What follows a line end is read as if it stood alone, further down.     *)
(* (Unless the line end merges with a carriage return before it.)          *)
Down(tok, by, off) == [tok EXCEPT !.l = @ + by, !.s = @ + off, !.e = @ + off]
Shifted(toks, by, off) == [i \in DOMAIN toks |-> IF toks[i].k = "ERROR" THEN [toks[i] EXCEPT !.l = @ + by] ELSE Down(toks[i], by, off)]
Compositional ==
  \E toks \in {Tokens(text)} : IsError(toks) \/ (text # <<>> /\ Last(text) = CR) \/
    \A u \in UNITS : \E with \in {Tokens(text \o <<LF>> \o u)} :
      with = Front(toks) \o Shifted(Tokens(u), LineEnds(text \o <<LF>>, Len(text) + 1), Len(text) + 1)

(* Quotes decide what is a comment: a hash is one unless it is in a string *)
(* token or in another comment.                                            *)
EveryHashIsAccountedFor ==
  \E toks \in {Tokens(text)} : IsError(toks) \/
    \A k \in DOMAIN text : text[k] = HASH => \E i \in DOMAIN toks : toks[i].k \in {"Comment", "String", "BlockString"} /\ toks[i].s < k /\ k <= toks[i].e + 1
=============================================================================
