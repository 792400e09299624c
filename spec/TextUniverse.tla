---------------------------- MODULE TextUniverse ----------------------------
(* The bounded universe of values, styles, formatters, texts and custom     *)
(* parsers in which the laws of the textual form are checked and from which *)
(* calls for the real library are generated.                                *)
EXTENDS TextSession, FiniteSets, FiniteSetsExt

Seqs(S, lo, hi) == UNION {[1..k -> S] : k \in lo..hi}
Below2(k) == Norm([i \in 1..(k \div 8) |-> 255] \o <<2 ^ (k % 8) - 1>>)
Bg(m) == VU(m, 0)
Sg(n, m) == VI([neg |-> n, mag |-> m], 0)

(***************************************************************************)
(* Values                                                                  *)
(***************************************************************************)
Chars1 == {97, 34, 39, 92, 10, 13, 9, 0, 32, 233, 769, 160, 128512, 110}
Names1 == {<<>>, <<97>>, <<65, 95, 49>>, <<95>>, <<49>>, <<233>>, <<97, 769>>, <<118>>, <<116, 114, 117, 101>>, <<116, 114, 117, 101, 95>>,
           <<102, 97, 108, 115, 101, 120>>, <<97, 32>>, <<34>>, <<92, 110>>, <<178>>, <<170>>, <<97, 178>>, <<58>>, <<118, 34>>, <<8551>>}
I128Min == Pow2(127)
Ints1 == {Bg(<<>>), Bg(<<1>>), Bg(<<10>>), Bg(<<255>>), Bg(Pow2(64)), Bg(Pow2(127)), Bg(Below2(128)),
          Sg(FALSE, <<>>), Sg(FALSE, <<9>>), Sg(TRUE, <<1>>), Sg(TRUE, <<99>>), Sg(TRUE, I128Min), Sg(FALSE, Below2(127))}
Bits1 == {VBits(b, 0) : b \in Seqs({TRUE, FALSE}, 0, 2)} \cup {VBits([i \in 1..9 |-> i % 3 = 0], 0)}
Strs1 == {VStr(s, 0) : s \in Seqs({97, 34, 92, 10}, 0, 2) \cup {<<110, 92, 92, 110>>, <<128512, 0>>}}
Leaves == {VBool(TRUE, 0), VBool(FALSE, 0)} \cup {VChar(c, 0) : c \in Chars1} \cup Strs1 \cup Ints1 \cup Bits1
Few == {VBool(TRUE, 0), VChar(39, 0), VStr(<<34>>, 0), Bg(<<7>>), Sg(TRUE, <<1>>), VBits(<<TRUE>>, 0), VUnnamed(<<>>, 0), VNamed(<<>>, 0),
        VVar(<<65>>, CUnnamed(<<>>), 0), VVar(<<118, 32>>, CNamed(<<>>), 0)}
Lists(S, n) == {VUnnamed(s, 0) : s \in Seqs(S, 0, n)}
Maps(N, S, n) == UNION {{VNamed([i \in 1..k |-> [n |-> ns[i], v |-> vs[i]]], 0) : <<ns, vs>> \in [1..k -> N] \X [1..k -> S]} : k \in 0..n}
Vars(N, C) == {VVar(n, IF c.k = "named" THEN CNamed(c.fs) ELSE CUnnamed(c.vs), 0) : <<n, c>> \in N \X C}
Two == {VBool(FALSE, 0), VStr(<<97, 44>>, 0)}
Shallow == Lists(Few, 2) \cup Maps({<<97>>, <<32>>}, Two \cup {VUnnamed(<<>>, 0)}, 2) \cup Maps(Names1, {Bg(<<1>>)}, 1)
           \cup Vars(Names1, {VUnnamed(<<>>, 0), VNamed(<<>>, 0), VUnnamed(<<Bg(<<1>>)>>, 0), VNamed(<<[n |-> <<98>>, v |-> VBool(TRUE, 0)]>>, 0)})
\* compositions of compositions
Some3 == Lists(Two, 2) \cup Maps({<<97>>}, Two, 2) \cup Vars({<<65>>}, Lists({Bg(<<2>>)}, 1))
Deep2 == Lists(Some3, 2) \cup Maps({<<98>>, <<34>>}, Some3, 1) \cup Vars({<<118, 97>>, <<>>}, Lists(Some3, 1) \cup Maps({<<97>>}, Some3, 1))
Deep3 == Lists(Deep2, 1) \cup Vars({<<66>>}, Lists(Deep2, 1)) \cup Maps({<<99>>}, Deep2, 1) \cup {VUnnamed(<<x, y>>, 0) : <<x, y>> \in Some3 \X Deep2}
TextVals(n) == Leaves \cup Shallow \cup (IF n > 1 THEN Deep2 ELSE {}) \cup (IF n > 2 THEN Deep3 ELSE {})

Modes == {"normal", "compact", "pretty"}
Style(m, by, lead) == [mode |-> m, by |-> by, lead |-> lead, use |-> FALSE, bad |-> -1, fmts |-> <<>>]
WhiteStyles == {Style(m, <<32, 32>>, <<>>) : m \in Modes} \cup {Style("pretty", <<>>, <<>>), Style("pretty", <<9>>, <<32, 12288>>), Style("pretty", <<10>>, <<160>>)}
OddStyles == {Style("pretty", <<42, 42>>, <<233>>), Style("normal", <<120>>, <<120>>), Style("compact", <<120>>, <<120>>)}

(***************************************************************************)
(* Formatters: values with distinct contexts, and sets of formatters       *)
(***************************************************************************)
\* contexts numbered in pre-order from 1
RECURSIVE NumberFrom(_, _)
NumberFrom(v, x) ==
    LET n == NodeCount(v)
        kids(c) == [i \in 1..CLen(c) |-> NumberFrom(CVal(c, i), x + 1 + FoldLeft(LAMBDA s, y : s + NodeCount(y), 0, SubSeq(CVals(c), 1, i - 1)))]
        put(c) == IF c.k = "named" THEN [c EXCEPT !.fs = [i \in 1..Len(c.fs) |-> [n |-> c.fs[i].n, v |-> kids(c)[i]]]] ELSE [c EXCEPT !.vs = kids(c)]
        w == [v EXCEPT !.ctx = x]
    IN IF IsComposite(v) THEN put(w) ELSE IF v.k = "var" THEN [w EXCEPT !.c = put(v.c)] ELSE w
HexF == [kind |-> "hex"]
SynF(on, x, out, res) == [kind |-> "syn", on |-> on, x |-> x, out |-> out, res |-> res]
FmtVals == {NumberFrom(v, 1) : v \in
    {VBool(TRUE, 0), Bg(<<5>>), VU256([i \in 1..32 |-> i], 0), VStr(<<97>>, 0),
     VUnnamed(<<Bg(<<1>>), Bg(<<255>>)>>, 0), VUnnamed(<<Bg(<<1>>), Bg(<<0, 1>>)>>, 0), VUnnamed(<<>>, 0),
     VNamed(<<[n |-> <<97>>, v |-> VU256([i \in 1..32 |-> 0], 0)], [n |-> <<98>>, v |-> VUnnamed(<<VBool(FALSE, 0)>>, 0)]>>, 0),
     VVar(<<65>>, CUnnamed(<<VUnnamed(<<Bg(<<16>>)>>, 0), VI256([i \in 1..32 |-> 1], 0), VBits(<<TRUE>>, 0)>>), 0),
     VVar(<<65>>, CNamed(<<[n |-> <<97>>, v |-> VVar(<<66>>, CUnnamed(<<Bg(<<3>>)>>), 0)], [n |-> <<97>>, v |-> VChar(97, 0)]>>), 0)}}
Fmts == {HexF, SynF("any", 0, <<88>>, "ok"), SynF("u256", 0, <<87>>, "ok"), SynF("unnamed", 0, <<>>, "ok"), SynF("ctx", 1, <<233>>, "err"),
         SynF("ctx", 2, <<50>>, "ok"), SynF("ctx", 3, <<51>>, "err"), SynF("u128", 0, <<110>>, "ok"), SynF("i256", 0, <<73>>, "ok")}
FmtLists(n) == Seqs(Fmts, 0, n)
FmtStyles(m, fs) == {[Style(m, <<32>>, <<>>) EXCEPT !.use = u, !.bad = b, !.fmts = fs] : <<u, b>> \in {<<FALSE, -1>>, <<TRUE, -1>>, <<TRUE, 1>>, <<TRUE, 2>>, <<TRUE, 4>>}}

(***************************************************************************)
(* Texts                                                                   *)
(***************************************************************************)
\* one of each class of character the grammar knows:  ( ) { } < > , : ' " \ 0 1 - + _ a v space e-acute ARABIC-DIGIT
Alphabet == {40, 41, 123, 125, 60, 62, 44, 58, 39, 34, 92, 48, 49, 45, 43, 95, 97, 118, 32, 233, 1635}
Tokens == << <<40>>, <<41>>, <<123>>, <<125>>, <<44>>, <<58>>, <<32>>, <<60, 49, 62>>, <<97>>, <<65>>, <<118, 34, 97, 34>>, <<34, 98, 34>>,
             <<39, 99, 39>>, <<39, 92, 39, 39>>, <<49, 50>>, <<45, 55>>, TRUE_, <<102, 97, 108, 115, 101>>, <<233>>, <<97, 58>>, <<58, 49>>, <<40, 41>>, <<44, 32>> >>
TokenSeqs(n) == {FlattenSeq([i \in 1..Len(q) |-> Tokens[q[i]]]) : q \in Seqs(1..Len(Tokens), 0, n)}
\* every way to end or change one character of some good texts
GoodTexts == <<  <<123, 97, 58, 49, 44, 34, 98, 34, 58, 40, 39, 99, 39, 44, 60, 48, 62, 41, 125>>,       \* {a:1,"b":('c',<0>)}
            <<65, 32, 123, 32, 233, 32, 58, 32, 45, 49, 95, 48, 32, 125>>,                           \* A { e : -1_0 }
            <<40, 118, 34, 92, 34, 34, 40, 116, 114, 117, 101, 41, 44, 32, 43, 48, 49, 41>>,         \* (v"\""(true), +01)
            <<34, 92, 110, 233, 92, 92, 34>>, <<39, 92, 48, 39>> >>
Near(s) == {SubSeq(s, 1, k) : k \in 0..Len(s)}
           \cup {SubSeq(s, 1, k - 1) \o <<c>> \o SubSeq(s, k + 1, Len(s)) : <<k, c>> \in (1..Len(s)) \X Alphabet}
           \cup {SubSeq(s, 1, k - 1) \o <<c>> \o SubSeq(s, k, Len(s)) : <<k, c>> \in (1..Len(s) + 1) \X Alphabet}
           \cup {SubSeq(s, 1, k - 1) \o SubSeq(s, k + 1, Len(s)) : k \in 1..Len(s)}
NearGood == UNION {Near(GoodTexts[i]) : i \in 1..Len(GoodTexts)}
\* integers around the ends of the ranges
EdgeNats == {Pow2(128), Below2(128), Add(Pow2(128), <<1>>), Pow2(127), Below2(127), Add(Pow2(127), <<1>>), Pow2(64), <<>>, MulAdd(Pow2(128), 10, 0)}
EdgeInts == {p \o z \o DecText(n) \o t : <<p, z, n, t>> \in {<<>>, <<45>>, <<43>>} \X {<<>>, <<48>>, <<48, 95, 48>>, <<95>>} \X EdgeNats \X {<<>>, <<95>>, <<46>>}}

(***************************************************************************)
(* Custom parsers                                                          *)
(***************************************************************************)
SynP(lit, eat, res, v, drift) == [kind |-> "syn", lit |-> lit, eat |-> eat, res |-> res, v |-> v, es |-> 1, eh |-> eat = 1, et |-> 3, drift |-> drift]
HexP == [kind |-> "hex"]
SsP == [kind |-> "ss58"]
Syns == {SynP(<<233>>, 0, "ok", VBool(TRUE, 0), 0), SynP(<<233>>, 1, "ok", VStr(<<233>>, 0), 0), SynP(<<233>>, 1, "err", VBool(TRUE, 0), 1),
         SynP(<<97>>, 0, "ok", VUnnamed(<<Bg(<<7>>)>>, 0), 0), SynP(<<97>>, 0, "none", VBool(TRUE, 0), 1), SynP(<<>>, 0, "none", VBool(TRUE, 0), 2),
         SynP(<<49>>, 0, "err", VBool(TRUE, 0), 0), SynP(<<40>>, 1, "ok", VChar(97, 0), 0), SynP(<<>>, 1, "ok", VChar(98, 0), 0), HexP}
CustomTexts(n) ==
    LET toks == << <<40>>, <<41>>, <<123, 97, 58>>, <<125>>, <<44>>, <<233>>, <<97>>, <<49>>, <<48, 120, 49, 70>>, <<65, 40>>, <<32>> >>
    IN {FlattenSeq([i \in 1..Len(q) |-> toks[q[i]]]) : q \in Seqs(1..Len(toks), 0, n)}
HexTexts(n) == {<<48, 120>> \o s : s \in Seqs({48, 57, 97, 70, 103, 71, 95, 233, 32}, 0, n)} \cup Seqs({48, 120, 88, 49}, 0, 3)

\* addresses: the base58 text of prefix, payload and a checksum, right or wrong
Address(pre, pay, x) == LET d == pre \o pay h == Blake2b512(Ss58Pre \o d) IN Base58Of(d \o <<h[1], IF x = 0 THEN h[2] ELSE (h[2] + x) % 256>>)
SsPrefixes == {<<0>>, <<42>>, <<63>>, <<64, 0>>, <<127, 255>>, <<64>>, <<128>>, <<255>>, <<>>}
SsPayloads == {<<>>, <<0>>, <<1, 2>>, [i \in 1..32 |-> i * 7], [i \in 1..32 |-> 0], [i \in 1..33 |-> 255 - i]}
SsTails == {<<>>, <<40>>, <<32, 123>>, <<44>>, <<233>>, <<95>>}
=============================================================================
