------------------------------ MODULE GenText ------------------------------
(* Writes the bounded universe of the textual form as sessions of calls for *)
(* the real library, as Gen does for the SCALE part.                        *)
EXTENDS TextUniverse, Json, IOUtils

Mode == IOEnv.MODE
Deep == atoi(IOEnv.DEEP)

Cat(S, f(_)) == FlattenSeq([i \in 1..Len(S) |-> f(S[i])])
Over(S, f(_)) == Cat(SetToSeq(S), f)
Chunks(s, n) == [i \in 1..((Len(s) + n - 1) \div n) |-> SubSeq(s, (i - 1) * n + 1, IF i * n < Len(s) THEN i * n ELSE Len(s))]
Sessions(S, f(_), n) == LET c == Chunks(SetToSeq(S), n) IN [i \in 1..Len(c) |-> [reg |-> <<>>, evs |-> Cat(c[i], f)]]

PrintE(how, what, o, budget, v) == [op |-> "print", how |-> how, what |-> what, o |-> o, budget |-> budget, v |-> v]
ParseE(s, ps, how) == [op |-> "parse", s |-> s, last |-> FALSE, ps |-> ps, how |-> how]
ParseLast == [op |-> "parse", s |-> <<>>, last |-> TRUE, ps |-> <<>>, how |-> "fn"]
Part(v) == IF IsPrim(v) THEN "prim" ELSE IF IsComposite(v) THEN "comp" ELSE IF v.k = "var" THEN "variant" ELSE "def"

ForPrint(v) ==
    Cat(SetToSeq(WhiteStyles), LAMBDA o : <<PrintE("builder", "value", o, -1, v), ParseLast>>)
    \o Cat(SetToSeq(OddStyles), LAMBDA o : <<PrintE("builder", "value", o, -1, v)>>)
    \o Cat(<<"value", "def", Part(v)>>, LAMBDA w : <<PrintE("display", w, Plainly("normal"), -1, v), ParseLast, PrintE("alt", w, Plainly("pretty"), -1, v), ParseLast>>)
    \o <<PrintE("writer", "value", Plainly("normal"), -1, v), PrintE("string", "value", Plainly("normal"), -1, v)>>
\* all amounts of room that the writer may have
ForFmt(y) == LET v == y[1] o == y[2] x == PrintWith(v, o) IN
    <<PrintE("builder", "value", o, -1, v)>> \o
    (IF Deep > 1 \/ Len(o.fmts) < 2 THEN LET c == {0, 1, Len(x.s) - 1, Len(x.s)} \cup {(Len(x.s) * k) \div 5 : k \in 1..4}
                         IN Cat(SetToSeq({b \in c : b >= 0}), LAMBDA b : <<PrintE("builder", "value", o, b, v)>>) ELSE <<>>)
ForText(s) == <<ParseE(s, <<>>, "fn")>>
TextIns == {<<>>} \cup NearGood \cup EdgeInts \cup TokenSeqs(Deep - 1) \cup Seqs(Alphabet, 1, Deep)
ForCustom(s) == Cat(SetToSeq(Syns), LAMBDA p : <<ParseE(s, <<p>>, "again")>> \o
    (IF p = HexP THEN Cat(SetToSeq(Syns \ {p}), LAMBDA q : <<ParseE(s, <<p, q>>, "fn"), ParseE(s, <<q, p>>, "fn")>>) ELSE <<>>))
    \o (IF Deep > 2 THEN Over(Syns \X Syns, LAMBDA q : <<ParseE(s, <<q[1], q[2]>>, "fn")>>) ELSE <<>>)
ForHex(s) == <<[op |-> "hexp", s |-> s], ParseE(s, <<HexP>>, "fn"), ParseE(<<40>> \o s \o <<44, 32>> \o s \o <<41>>, <<HexP>>, "fn")>>
HexVals == {BytesV(<<b>>) : b \in Byte} \cup {VUnnamed(s, 0) : s \in Seqs({Bg(<<>>), Bg(<<171>>), Bg(<<255>>), Bg(<<0, 1>>), Sg(FALSE, <<1>>), VBool(TRUE, 0)}, 0, Deep + 1)}
           \cup {VNamed(<<[n |-> <<97>>, v |-> Bg(<<1>>)]>>, 0), Bg(<<1>>), VVar(<<65>>, CUnnamed(<<Bg(<<1>>)>>), 0), VUnnamed(<<VUnnamed(<<Bg(<<1>>)>>, 0)>>, 0), VBits(<<TRUE>>, 0),
                 VUnnamed(<<Bg(Pow2(64))>>, 0), VUnnamed(<<Bg(Pow2(127))>>, 0), VUnnamed(<<VU256([i \in 1..32 |-> 0], 0)>>, 0), VUnnamed(<<VChar(49, 0)>>, 0)}
HexStyle(m) == [Plainly(m) EXCEPT !.fmts = <<HexF>>]
ForHexF(v) == <<[op |-> "hexf", v |-> v], PrintE("builder", "value", HexStyle("normal"), -1, v),
                PrintE("builder", "value", HexStyle("pretty"), -1, VNamed(<<[n |-> <<97>>, v |-> v]>>, 0))>>
SsIns == {Address(y[1], y[2], y[3]) : y \in (IF Deep > 1 THEN SsPrefixes ELSE {<<42>>, <<64, 0>>, <<127, 255>>, <<128>>}) \X SsPayloads \X {0, 1}}
         \cup {TRUE_, <<49>>, <<49, 49, 49, 49>>, <<65>>, <<48, 79>>, <<>>, <<233>>}
ForSs(s) == Cat(SetToSeq(SsTails), LAMBDA t : <<[op |-> "ss58p", s |-> s \o t]>>)
            \o <<ParseE(<<40>> \o s \o <<44, 49, 44>> \o s \o <<32, 41>>, <<SsP>>, "fn"), ParseE(s \o <<40, 49, 41>>, <<SsP>>, "fn"),
                 ParseE(<<123, 97, 58>> \o s \o <<125>>, <<HexP, SsP>>, "fn")>>

Cases ==
    CASE Mode = "print" -> Sessions(TextVals(Deep), ForPrint, 20)
      [] Mode = "fmt" -> Sessions(UNION {{<<v, o>> : <<v, o>> \in FmtVals \X UNION {FmtStyles(m, fs) : fs \in FmtLists(Deep)}} : m \in Modes}, ForFmt, 50)
      [] Mode = "text" -> Sessions(TextIns, ForText, 200)
      [] Mode = "custom" -> Sessions(CustomTexts(Deep), ForCustom, 20)
      [] Mode = "hex" -> Sessions(HexTexts(Deep), ForHex, 50) \o Sessions(HexVals, ForHexF, 50)
      [] Mode = "ss58" -> Sessions(SsIns, ForSs, 4)

ASSUME ndJsonSerialize(IOEnv.OUT, Cases)
ASSUME PrintT(<<"GEN", Mode, Len(Cases)>>)
VARIABLE z
Spec == z = 0 /\ [][FALSE]_z
=============================================================================
