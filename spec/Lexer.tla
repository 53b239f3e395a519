------------------------------- MODULE Lexer -------------------------------
(***************************************************************************)
(* The lexical grammar of GraphQL as the schema parser applies it, with    *)
(* comments kept as tokens.                                                *)
(*                                                                         *)
(* A text is a sequence of code points. The state of the lexer is          *)
(* [p, ln, ls]: index of the next code point, line number, and the number  *)
(* of code points before the current line. Offsets count code points.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

TAB == 9   LF == 10   CR == 13   SP == 32   QT == 34   HASH == 35   BS == 92   COMMA == 44   BOM == 65279
DIGIT == 48..57
LETTER == (65..90) \union (97..122) \union {95}
NAMECHAR == LETTER \union DIGIT
CONTROL == (0..31) \ {TAB}

At(t, i) == IF i <= Len(t) THEN t[i] ELSE -1

RECURSIVE SkipIn(_, _, _)       \* first index >= p outside S
SkipIn(t, p, S) == IF p <= Len(t) /\ t[p] \in S THEN SkipIn(t, p + 1, S) ELSE p
RECURSIVE SkipOut(_, _, _)      \* first index >= p inside S, or after the end
SkipOut(t, p, S) == IF p <= Len(t) /\ t[p] \notin S THEN SkipOut(t, p + 1, S) ELSE p

St(p, ln, ls) == [p |-> p, ln |-> ln, ls |-> ls]
START == St(1, 1, 0)

(* Insignificant: blanks, commas, byte order marks, line ends. The column  *)
(* of what follows a CR LF counts from the LF, as the parser has it.       *)
RECURSIVE Blank(_, _)
Blank(t, st) ==
  LET c == At(t, st.p) IN
  CASE c \in {TAB, SP, COMMA, BOM} -> Blank(t, St(st.p + 1, st.ln, st.ls))
    [] c = LF -> Blank(t, St(st.p + 1, st.ln + 1, st.p))
    [] c = CR -> Blank(t, St(IF At(t, st.p + 1) = LF THEN st.p + 2 ELSE st.p + 1, st.ln + 1, st.p))
    [] OTHER -> st

(* A token or an error, and the lexer state after it                       *)
Tok(k, v, s, e, ln, col, st) == [tok |-> [k |-> k, v |-> v, s |-> s, e |-> e, l |-> ln, c |-> col], st |-> st]
Err(p, ln, ls) == [tok |-> [k |-> "ERROR", v |-> <<>>, s |-> 0, e |-> 0, l |-> ln, c |-> p - ls], st |-> St(p, ln, ls)]

PUNCT == [c \in {33, 36, 38, 40, 41, 58, 61, 64, 91, 93, 123, 125, 124} |->
  CASE c = 33 -> "Bang" [] c = 36 -> "Dollar" [] c = 38 -> "Amp" [] c = 40 -> "ParenL" [] c = 41 -> "ParenR"
    [] c = 58 -> "Colon" [] c = 61 -> "Equals" [] c = 64 -> "At" [] c = 91 -> "BracketL" [] c = 93 -> "BracketR"
    [] c = 123 -> "BraceL" [] c = 125 -> "BraceR" [] OTHER -> "Pipe"]

(* A token whose value is its text, from st.p up to before index q         *)
Plain(k, t, st, q) == Tok(k, SubSeq(t, st.p, q - 1), st.p - 1, q - 1, st.ln, st.p - st.ls, St(q, st.ln, st.ls))

-----------------------------------------------------------------------------
(* Numbers *)

Number(t, st) ==
  LET a == IF At(t, st.p) = 45 THEN st.p + 1 ELSE st.p        \* after the sign
      b == IF At(t, a) = 48 THEN a + 1 ELSE SkipIn(t, a, DIGIT)    \* after the integer part
      c == IF At(t, b) = 46 THEN SkipIn(t, b + 1, DIGIT) ELSE b    \* after the fraction
      hasExp == At(t, c) \in {69, 101}
      d == IF hasExp THEN (IF At(t, c + 1) \in {43, 45} THEN c + 2 ELSE c + 1) ELSE c
      e == IF hasExp THEN SkipIn(t, d, DIGIT) ELSE c
      bad(p) == Err(p, st.ln, st.ls)
  IN CASE b = a -> bad(a)
       [] At(t, a) = 48 /\ At(t, b) \in DIGIT -> bad(b)
       [] c = b + 1 /\ At(t, b) = 46 -> bad(c)
       [] hasExp /\ e = d -> bad(d)
       [] OTHER -> Plain(IF e > b THEN "Float" ELSE "Int", t, st, e)

-----------------------------------------------------------------------------
(* Strings *)

Hex(c) == CASE c \in DIGIT -> c - 48 [] c \in 97..102 -> c - 87 [] c \in 65..70 -> c - 55 [] OTHER -> -1
Hex4(t, p) == IF \E i \in 0..3 : Hex(At(t, p + i)) = -1 THEN -1
              ELSE LET v == Hex(t[p]) * 4096 + Hex(t[p+1]) * 256 + Hex(t[p+2]) * 16 + Hex(t[p+3]) IN
                   IF v \in 55296..57343 THEN 65533 ELSE v     \* lone surrogates
ESCAPE == (34 :> 34) @@ (47 :> 47) @@ (92 :> 92) @@ (98 :> 8) @@ (102 :> 12) @@ (110 :> 10) @@ (114 :> 13) @@ (116 :> 9)

(* st.p is the opening quote, p the next code point to look at, v what was *)
(* read. The column of a string token is that of its first character.      *)
RECURSIVE Str(_, _, _, _)
Str(t, st, p, v) ==
  LET c == At(t, p)  bad(q) == Err(q, st.ln, st.ls) IN
  CASE c \in CONTROL \union {-1} -> bad(p)                   \* unterminated or invalid
    [] c = QT -> Tok("String", v, st.p - 1, p, st.ln, st.p + 1 - st.ls, St(p + 1, st.ln, st.ls))
    [] c = BS -> LET x == At(t, p + 1) IN
         CASE x = 117 -> IF Len(t) >= p + 6 /\ Hex4(t, p + 2) # -1 THEN Str(t, st, p + 6, Append(v, Hex4(t, p + 2))) ELSE bad(p + 1)
           [] x \in DOMAIN ESCAPE -> Str(t, st, p + 2, Append(v, ESCAPE[x]))
           [] OTHER -> bad(p + 1)
    [] OTHER -> Str(t, st, p + 1, Append(v, c))

-----------------------------------------------------------------------------
(* Block strings *)

RECURSIVE SplitLF(_, _, _)
SplitLF(v, i, cur) == IF i > Len(v) THEN <<cur>>
                      ELSE IF v[i] = LF THEN <<cur>> \o SplitLF(v, i + 1, <<>>)
                      ELSE SplitLF(v, i + 1, Append(cur, v[i]))
RECURSIVE JoinLF(_)
JoinLF(ls) == CASE ls = <<>> -> <<>> [] Len(ls) = 1 -> ls[1] [] OTHER -> ls[1] \o <<LF>> \o JoinLF(Tail(ls))

Indent(line) == SkipIn(line, 1, {SP, TAB}) - 1
IsBlank(line) == Indent(line) = Len(line)
Least(S) == CHOOSE x \in S : \A y \in S : x <= y

(* Common indentation is removed, blank first and last lines are dropped.  *)
(* (The first line takes part in the common indentation, as in the parser.)*)
BlockValue(raw) ==
  LET ls == SplitLF(raw, 1, <<>>)
      full == {i \in DOMAIN ls : ~IsBlank(ls[i])}
      common == IF full = {} THEN 0 ELSE Least({Indent(ls[i]) : i \in full})
      cut == [i \in DOMAIN ls |-> IF i = 1 THEN ls[i] ELSE SubSeq(ls[i], common + 1, Len(ls[i]))]
      keep == {i \in DOMAIN cut : ~IsBlank(cut[i])}
  IN IF keep = {} THEN <<>>
     ELSE JoinLF(SubSeq(cut, Least(keep), CHOOSE x \in keep : \A y \in keep : y <= x))

Quotes3(t, p) == At(t, p) = QT /\ At(t, p + 1) = QT /\ At(t, p + 2) = QT

(* o is the index of the opening quotes. A block string token carries the  *)
(* line on which it ends, and a column relative to that line.              *)
RECURSIVE Block(_, _, _, _)
Block(t, o, st, v) ==
  LET p == st.p  c == At(t, p) IN
  CASE c = -1 -> Err(p, st.ln, st.ls)
    [] Quotes3(t, p) -> Tok("BlockString", BlockValue(v), o - 1, p + 2, st.ln, o + 3 - st.ls, St(p + 3, st.ln, st.ls))
    [] c \in CONTROL \ {LF, CR} -> Err(p, st.ln, st.ls)
    [] c = BS /\ Quotes3(t, p + 1) -> Block(t, o, St(p + 4, st.ln, st.ls), v \o <<QT, QT, QT>>)
    [] c = CR -> LET q == IF At(t, p + 1) = LF THEN p + 2 ELSE p + 1 IN Block(t, o, St(q, st.ln + 1, q - 1), Append(v, LF))
    [] c = LF -> Block(t, o, St(p + 1, st.ln + 1, p), Append(v, LF))
    [] OTHER -> Block(t, o, St(p + 1, st.ln, st.ls), Append(v, c))

-----------------------------------------------------------------------------
(* One token *)

ReadToken(t, from) ==
  LET st == Blank(t, from)  p == st.p  c == At(t, p)
      punct(k, n) == Tok(k, <<>>, p - 1, p - 1 + n, st.ln, p - st.ls, St(p + n, st.ln, st.ls))
  IN CASE c = -1 -> punct("EOF", 0)
       [] c \in DOMAIN PUNCT -> punct(PUNCT[c], 1)
       [] c = 46 /\ At(t, p + 1) = 46 /\ At(t, p + 2) = 46 -> punct("Spread", 3)
       [] c = HASH -> Plain("Comment", t, st, SkipOut(t, p, CONTROL))
       [] c \in LETTER -> Plain("Name", t, st, SkipIn(t, p, NAMECHAR))
       [] c = 45 \/ c \in DIGIT -> Number(t, st)
       [] c = QT -> IF Quotes3(t, p) THEN Block(t, p, St(p + 3, st.ln, st.ls), <<>>) ELSE Str(t, st, p + 1, <<>>)
       [] OTHER -> Err(p, st.ln, st.ls)

Final(tok) == tok.k \in {"EOF", "ERROR"}

(* All tokens of a text; the last one is EOF or ERROR.                     *)
RECURSIVE TokensFrom(_, _)
TokensFrom(t, st) == LET r == ReadToken(t, st) IN IF Final(r.tok) THEN <<r.tok>> ELSE <<r.tok>> \o TokensFrom(t, r.st)
Tokens(t) == TokensFrom(t, START)

(* As the schema parser sees it                                            *)
Significant(toks) == SelectSeq(toks, LAMBDA x : x.k # "Comment")
Comments(toks) == SelectSeq(toks, LAMBDA x : x.k = "Comment")
=============================================================================
