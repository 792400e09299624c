------------------------------- MODULE MCText -------------------------------
(***************************************************************************)
(* The laws of the textual form, on the specification itself, over the     *)
(* bounded universe.  One behaviour per input.                             *)
(***************************************************************************)
EXTENDS TextUniverse, IOUtils

CONSTANTS Mode, Deep

VARIABLES g,        \* which group the input comes from
          x,        \* the input
          in
vars == <<g, x, in>>

Groups == CASE Mode = "print" -> WhiteStyles \cup OddStyles
            [] Mode = "fmt" -> Modes
            [] Mode = "text" -> {0} \cup Alphabet
            [] Mode = "custom" -> Syns \cup {SsP}
            [] OTHER -> {0}
Texts == {<<g>> \o s : s \in Seqs(Alphabet, 0, Deep - 1)}
Inputs ==
    CASE Mode = "print" -> TextVals(Deep)
      [] Mode = "fmt" -> {<<v, o>> : <<v, o>> \in FmtVals \X UNION {FmtStyles(g, fs) : fs \in FmtLists(Deep)}}
      [] Mode = "text" -> IF g = 0 THEN {<<>>} \cup NearGood \cup EdgeInts \cup TokenSeqs(Deep - 1) ELSE Texts
      [] Mode = "custom" -> {<<s, q>> : <<s, q>> \in CustomTexts(Deep) \X Syns}
      [] Mode = "hex" -> HexTexts(Deep)
      [] Mode = "bytes" -> {[i \in 1..Len(b) |-> b[i]] : b \in Seqs({0, 1, 15, 16, 160, 255}, 1, Deep) \cup {<<b>> : b \in Byte}}
      [] Mode = "ss58" -> (IF Deep > 1 THEN SsPrefixes ELSE {<<42>>, <<64, 0>>, <<128>>}) \X SsPayloads \X {0, 1} \X SsTails
Init == g \in Groups /\ x = <<>> /\ in = FALSE
Choose == ~in /\ in' = TRUE /\ x' \in Inputs /\ UNCHANGED g
Next == Choose
Spec == Init /\ [][Next]_vars

\* C15: what is printed parses back, whatever the style, unless the indents are no whitespace
Pr == PrintWith(x, g)
C15Round == (in /\ Mode = "print" /\ g \in WhiteStyles) =>
    LET r == Parse(Pr.s, <<>>) IN Pr.ok /\ r.k = "ok" /\ r.i = Len(Pr.s) + 1 /\ r.v = StripCtx(Unsign(x))
\* C16: the styles differ in whitespace only; compact has none; every line of the pretty form begins with the leading indent
\* and has as many units of indentation as composites are open
C16White == (in /\ Mode = "print" /\ g \in WhiteStyles) =>
    LET c == PrintAs(x, "compact").s IN Squash(Pr.s, 1, 0) = c /\ Squash(c, 1, 0) = c
C16Odd == (in /\ Mode = "print" /\ g \in OddStyles /\ g.mode # "pretty") => Pr.s = PrintAs(x, g.mode).s
\* items of a composite on lines of their own
RECURSIVE Lines(_)
LinesC(c) == IF CLen(c) = 0 THEN 0 ELSE CLen(c) + 1 + FoldLeft(LAMBDA a, y : a + Lines(y), 0, CVals(c))
Lines(v) == IF IsComposite(v) THEN LinesC(v) ELSE IF v.k = "var" THEN LinesC(v.c) ELSE 0
C16Lines == (in /\ Mode = "print" /\ g = Plainly("pretty")) => Len(SelectSeq(Pr.s, LAMBDA c : c = 10)) = Lines(x)

\* C17: without contexts and formatters that accept, nothing changes; the log names every value once per formatter asked,
\* in pre-order, and nothing inside a value that a formatter took over
Pf == PrintWith(x[1], x[2])
NoFmts == [x[2] EXCEPT !.fmts = <<>>, !.use = FALSE]
C17Absent == (in /\ Mode = "fmt") =>
    LET taken == \E q \in 1..Len(x[2].fmts) : \E j \in 1..Len(Pf.log) : Pf.log[j][1] = q /\ (j = Len(Pf.log) \/ Pf.log[j + 1][1] # q + 1) /\ q < Len(x[2].fmts)
    IN (~x[2].use /\ ~taken /\ \A j \in 1..Len(x[2].fmts) : x[2].fmts[j].kind = "syn" /\ x[2].fmts[j].on = "ctx" /\ x[2].fmts[j].x \notin ToSet(Contexts(x[1])))
       => Pf.s = PrintWith(x[1], NoFmts).s
C17Log == (in /\ Mode = "fmt") =>
    /\ \A j \in 1..Len(Pf.log) : /\ Pf.log[j][1] \in 0..Len(x[2].fmts)
                                 /\ Pf.log[j][1] = 0 => x[2].use
                                 /\ \A i \in 1..(j - 1) : Pf.log[i] # Pf.log[j] /\ Pf.log[i][2] <= Pf.log[j][2]
    /\ (Pf.ok /\ x[2].fmts = <<>> /\ x[2].use) => [j \in 1..Len(Pf.log) |-> Pf.log[j][2]] = Contexts(x[1])
C17Fail == (in /\ Mode = "fmt" /\ ~Pf.ok) =>
    \/ Has256(x[1])
    \/ Len(Pf.log) > 0 /\ LET l == Pf.log[Len(Pf.log)] IN IF l[1] = 0 THEN l[2] = x[2].bad ELSE x[2].fmts[l[1]].kind = "syn" /\ x[2].fmts[l[1]].res = "err"

\* C18: parsing looks at nothing after the value, yields a value that prints and parses, and the integers fit
RECURSIVE Fits(_)
Fits(v) == CASE v.k = "u128" -> FitsU128(v.u) [] v.k = "i128" -> FitsI128(IntOfV(v)) [] v.k \in {"u256", "i256"} -> FALSE
             [] IsComposite(v) -> \A j \in 1..CLen(v) : Fits(CVal(v, j)) [] v.k = "var" -> \A j \in 1..CLen(v.c) : Fits(CVal(v.c, j)) [] OTHER -> TRUE
Px == Parse(x, <<>>)
C18Prefix == (in /\ Mode = "text" /\ Px.k = "ok") =>
    LET t == SubSeq(x, 1, Px.i - 1) r == Parse(t, <<>>) IN
    /\ Px.i \in 2..(Len(x) + 1) /\ Fits(Px.v)
    /\ r.k = "ok" /\ r.v = Px.v /\ r.i = Px.i
    /\ LET p == Parse(PrintAs(Px.v, "compact").s, <<>>) IN p.k = "ok" /\ p.v = Unsign(Px.v)
\* no whitespace is skipped before the value
C18Lead == (in /\ Mode = "text") => LET r == Parse(<<32>> \o x, <<>>) IN r.k = "err" /\ r.e.kind = "ExpectedValue"
Departures == {"Closer", "FieldSeparator", "IdentStart", "StringEscape", "CharClosingQuote", "BitsClosingBracket", "ExpectedValue",
               "NumberDigit", "StringClosingQuote", "CharMissing"}
Remedy(e) == CASE e.kind = "Closer" -> <<e.a[1]>> [] e.kind = "FieldSeparator" -> <<58>> [] e.kind = "IdentStart" -> <<97>>
               [] e.kind = "StringClosingQuote" -> <<34>> [] e.kind = "CharClosingQuote" -> <<39>> [] e.kind = "BitsClosingBracket" -> <<62>>
               [] e.kind \in {"CharMissing", "CharEscape"} -> <<110>> [] OTHER -> <<48>>
\* can the text go on to be a value?
RECURSIVE Completes(_, _)
Completes(t, n) ==
    LET r == Parse(t, <<>>) IN
    IF r.k = "ok" THEN r.i = Len(t) + 1
    ELSE n > 0 /\ r.e.s = Utf8Len(t) /\ Completes(t \o Remedy(r.e), n - 1)
\* C19: errors are at positions of the text; what comes before them is a text that can go on
C19Where == (in /\ Mode = "text" /\ Px.k = "err") =>
    LET off == OffsetsFold(x) IN
    /\ \E i \in 1..Len(off) : off[i] = Px.e.s
    /\ Px.e.h => Px.e.t > Px.e.s
    /\ Px.e.kind \in Departures =>
           LET n == CHOOSE i \in 1..Len(off) : off[i] = Px.e.s IN
           /\ Completes(SubSeq(x, 1, n - 1), 12)
           /\ n <= Len(x) => \A t \in {<<>>, <<48>>, <<41>>, <<34, 125>>} :
                  LET r == Parse(SubSeq(x, 1, n) \o t, <<>>) IN r.k = "err" /\ (Px.e.kind # "ExpectedValue" => r.e = Px.e)

\* C20: a parser that declines leaves parsing as it were absent, wherever it is in the order
Pc(ps) == Parse(x[1], ps)
Same(a, b) == a.k = b.k /\ IF a.k = "ok" THEN a.v = b.v /\ a.i = b.i ELSE a.e = b.e
Declines == SynP(<<36>>, 0, "ok", VBool(TRUE, 0), 3)
C20Absent == (in /\ Mode = "custom") =>
    /\ Same(Pc(<<x[2]>>), Pc(<<Declines, x[2]>>)) /\ Same(Pc(<<x[2]>>), Pc(<<x[2], Declines>>))
    /\ (x[2].kind = "syn" /\ x[2].res = "none") => Same(Pc(<<x[2]>>), Pc(<<>>)) /\ Same(Pc(<<x[2], g>>), Pc(<<g>>))
\* the first to accept or fail decides
C20First == (in /\ Mode = "custom") => LET r == Parse(x[1], <<x[2], g>>) f == RunParser(x[2], x[1], 1) IN
    f.k # "none" => Same(r, Parse(x[1], <<x[2]>>)) \/ \E j \in 1..Len(r.log) : r.log[j][1] = 2
C20Log == (in /\ Mode = "custom") => LET r == Parse(x[1], <<x[2], g>>) IN
    \A j \in 1..Len(r.log) : /\ r.log[j][1] = 2 => j > 1 /\ r.log[j - 1] = <<1, r.log[j][2]>>
                             /\ \A i \in 1..(j - 1) : r.log[i][2] >= r.log[j][2]

\* C21: hex there and back
C21Bytes == (in /\ Mode = "bytes") =>
    LET v == BytesV(x) t == HexText(v) r == ParseHexAt(t, 1) IN
    /\ IsHexable(v) /\ Len(t) = 2 + 2 * Len(x) /\ r.k = "ok" /\ r.v = v /\ r.i = Len(t) + 1
    /\ LET o == [Plainly("normal") EXCEPT !.fmts = <<HexF>>] w == VNamed(<<[n |-> <<97>>, v |-> v]>>, 0)
           p == Parse(PrintWith(w, o).s, <<HexP>>) IN p.k = "ok" /\ p.v = w
C21Text == (in /\ Mode = "hex") =>
    LET r == ParseHexAt(x, 1) IN
    /\ r.k = "ok" => /\ Starts(x, 1, <<48, 120>>) /\ (r.i = Len(x) + 1 \/ ~IsAsciiAlnum(x[r.i]))
                     /\ r.v.vs # <<>> => Len(HexText(r.v)) = r.i - 1
    /\ r.k = "err" => r.e.s \in 0..(Len(x) - 1) /\ (r.e.h => r.e.t \in 1..Len(x))

\* C22: exactly the checksummed addresses, unless a bracket follows
C22Address == (in /\ Mode = "ss58") =>
    LET pre == x[1] pay == x[2] t == Address(pre, pay, x[3])
        b == pre \o pay
        plen == IF b = <<>> THEN 99 ELSE IF b[1] < 64 THEN 1 ELSE IF b[1] < 128 THEN 2 ELSE 99
        bracket == x[4] # <<>> /\ x[4] \in {<<40>>, <<32, 123>>}
        r == ParseSs58At(t \o x[4], 1)
    IN IF x[3] = 0 /\ plen <= Len(b) /\ ~bracket /\ \E j \in 1..Len(t) : ~IsDigit(t[j])
       THEN r.k = "ok" /\ r.i = Len(t) + 1 /\ r.v = BytesV(SubSeq(b, plen + 1, Len(b)))
       ELSE r.k = "none"
=============================================================================
