---------------------------- MODULE MC_LintScan ----------------------------
(***************************************************************************)
(* A text grows item by item: a description, a definition, a comment, a    *)
(* line end. The writer knows which comments configure the linter, and a   *)
(* reader that goes along knows which rules are off. What Lexer and        *)
(* LintScan say about the finished text has to agree with both. Every text *)
(* is a case for the real linter.                                          *)
(***************************************************************************)
EXTENDS LintScan, Notes, IOUtils

PRINTABLE == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
CodeOf == [c \in {SubSeq(PRINTABLE, i, i) : i \in 1..95} |-> 31 + CHOOSE i \in 1..95 : SubSeq(PRINTABLE, i, i) = c]
CPS(s) == [i \in 1..Len(s) |-> CodeOf[SubSeq(s, i, i)]]
Lf == <<10>>
Cr == <<13>>
CrLf == <<13, 10>>
Bom == <<65279>>
QQQ == CPS("\"\"\"")
EACUTE == <<233>>
HAN == <<19990>>
EMOJI == <<128512>>

(* descriptions: text, line breaks in it, and whether it is empty *)
Descr(t, breaks, none) == [t |-> t, breaks |-> breaks, none |-> none]
NoDescr == Descr(<<>>, 0, TRUE)
TheDisable == CPS("#lint-disable type-caps")
TheEnable == CPS("#lint-enable type-caps")
Worded == Descr(CPS("\"words\" "), 0, FALSE)
Wordless == Descr(CPS("\"\" "), 0, TRUE)
Tricky == { Descr(CPS("\"") \o TheDisable \o CPS("\" "), 0, FALSE),                                    \* in a string
            Descr(CPS("\"\\\"") \o TheDisable \o CPS("\" "), 0, FALSE),                                \* after an escaped quote
            Descr(CPS("\"\\\\\" "), 0, FALSE),                                                 \* ending in an escaped backslash
            Descr(CPS("\"\\u0022\""), 0, FALSE),
            Descr(QQQ \o TheDisable \o QQQ, 0, FALSE),                                                 \* in a block string
            Descr(QQQ \o Lf \o TheDisable \o Lf \o QQQ, 2, FALSE),
            Descr(QQQ \o CrLf \o TheDisable \o Cr \o TheEnable \o Lf \o QQQ, 3, FALSE),
            Descr(QQQ \o CPS("a\\\"\"\"") \o TheDisable \o Lf \o QQQ, 1, FALSE),                       \* after escaped quotes
            Descr(QQQ \o CPS(" \"\" \"") \o Lf \o CPS("\\ ") \o QQQ \o CPS(" "), 1, FALSE),      \* quotes and a backslash in one
            Descr(QQQ \o Lf \o CPS("\\") \o QQQ \o TheDisable \o Lf \o QQQ, 2, FALSE),            \* an escaped end
            Descr(QQQ \o EACUTE \o CPS("\"") \o HAN \o Lf \o Lf \o EMOJI \o QQQ, 2, FALSE),
            Descr(CPS("\"") \o EACUTE \o HAN \o EMOJI \o CPS("\" "), 0, FALSE),
            Descr(Bom \o CPS(","), 0, TRUE),
            Descr(QQQ \o QQQ, 0, TRUE), Wordless }

(* comments: text, and what they configure *)
Cmt(t, cmd, rules) == [t |-> t, cmd |-> cmd, rules |-> rules]
NoCmt == Cmt(<<>>, "none", {})
Dead(s) == Cmt(CPS(s), "none", {})
Says(s, cmd, rules) == Cmt(CPS(s), cmd, rules)
TD == "type-desc"
TC == "type-caps"

Def(d, c) == [d |-> d, def |-> TRUE, c |-> c]
Alone(c) == [d |-> NoDescr, def |-> FALSE, c |-> c]

BlockItems == { Def(NoDescr, NoCmt), Alone(Says("#lint-disable type-desc", "disable", {TD})), Alone(Says("#lint-disable type-caps,type-desc", "disable", {TD, TC})),
                Alone(Says("#lint-enable type-caps", "enable", {TC})), Alone(Says("#lint-enable type-desc , TYPE-CAPS", "enable", {TD, TC})),
                Def(Worded, Says(" #lint-disable type-caps", "disable", {TC})), Def(NoDescr, Says("#lint-enable type-desc", "enable", {TD})),
                Alone(NoCmt) }
LineItems == { Def(NoDescr, NoCmt), Def(NoDescr, Says(" #lint-disable-line type-desc", "line", {TD})), Def(NoDescr, Says(" #lint-disable-line type-caps,type-desc", "line", {TC, TD})),
               Def(Worded, Says("#lint-disable-line Type-Caps", "line", {TC})), Alone(Says("#lint-disable-line type-caps", "line", {TC})),
               Alone(Says("#lint-disable type-caps", "disable", {TC})), Def(NoDescr, Says("#lint-enable type-caps", "enable", {TC})),
               Def(NoDescr, Says("#lint-disable-lines type-caps", "none", {})) }
Remarks == { NoCmt, Says("#lint-disable type-caps", "disable", {TC}), Says("#lint-disable-line  type-desc", "line", {TD}) }
OtherRemarks == { Dead("# lint-disable type-caps"), Dead("##lint-disable type-caps"), Dead("#Lint-disable type-caps"), Dead("#lint-disabled type-caps"), Dead("#lint-"),
                  Dead("#lint-enable"), Dead("#lint-disable type-cap s"), Cmt(CPS("#lint-disable-line") \o <<9>> \o CPS("type-caps"), "line", {TC}),
                  Cmt(CPS("#lint-disable ") \o HAN \o CPS(",") \o <<9>> \o CPS("tYpE-cApS") \o <<12288>>, "disable", {TC}), Dead("#\"") }
StringItems == {Def(d, c) : d \in Tricky, c \in Remarks} \union {Def(Worded, c) : c \in OtherRemarks}

Universe == CASE IOEnv.UNIVERSE = "block" -> BlockItems [] IOEnv.UNIVERSE = "line" -> LineItems [] IOEnv.UNIVERSE = "strings" -> StringItems
LineEnds == IF IOEnv.UNIVERSE = "strings" THEN {Lf, Cr, CrLf, Lf \o Cr, <<>>} ELSE {Lf}
Breaks(e) == IF e = Lf \o Cr THEN 2 ELSE IF e = <<>> THEN 0 ELSE 1
ITEMS == CASE IOEnv.ITEMS = "1" -> 1 [] IOEnv.ITEMS = "2" -> 2 [] IOEnv.ITEMS = "3" -> 3 [] IOEnv.ITEMS = "4" -> 4 [] IOEnv.ITEMS = "5" -> 5 [] IOEnv.ITEMS = "6" -> 6

-----------------------------------------------------------------------------
VARIABLES text, n, line, put, off, raw, left, open
vars == <<text, n, line, put, off, raw, left, open>>
Init == text = <<>> /\ n = 0 /\ line = 1 /\ put = <<>> /\ off = {} /\ raw = <<>> /\ left = <<>> /\ open = TRUE

Found(rule, l) == <<[rule |-> rule, l |-> l]>>
Write(i, e) ==
  LET at == line + i.d.breaks
      found == IF ~i.def THEN <<>> ELSE (IF i.d.none THEN Found(TD, at) ELSE <<>>) \o Found(TC, at)
  IN /\ open /\ n < ITEMS
     /\ text' = text \o i.d.t \o (IF i.def THEN CPS("scalar a") ELSE <<>>) \o i.c.t \o e
     /\ n' = n + 1
     /\ line' = at + Breaks(e)
     /\ put' = IF i.c.cmd = "none" THEN put ELSE Append(put, [cmd |-> i.c.cmd, rules |-> i.c.rules, line |-> at])
     /\ raw' = raw \o found
     /\ left' = left \o SelectSeq(found, LAMBDA x : x.rule \notin off /\ ~(i.c.cmd = "line" /\ x.rule \in i.c.rules))
     /\ off' = CASE i.c.cmd = "disable" -> off \union i.c.rules [] i.c.cmd = "enable" -> off \ i.c.rules [] OTHER -> off
     /\ open' = (e # <<>>)
Next == \E i \in Universe, e \in LineEnds : Write(i, e)
Spec == Init /\ [][Next]_vars

Named(rules) == {r \in {TD, TC} : CP(r) \in rules}
ConfigurationIsWhatWasWritten ==
  \E cs \in {SelectSeq(Configs(text), LAMBDA c : Named(c.rules) # {})} :
    /\ Len(cs) = Len(put)
    /\ \A i \in DOMAIN cs : cs[i].cmd = put[i].cmd /\ cs[i].line = put[i].line /\ Named(cs[i].rules) = put[i].rules
ReaderAgrees == Kept(Configs(text), raw) = left
Case == n > 0 => Note("CASE", [id |-> IOEnv.UNIVERSE, cps |-> text])
=============================================================================
