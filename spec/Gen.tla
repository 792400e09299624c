-------------------------------- MODULE Gen --------------------------------
(***************************************************************************)
(* Writes the bounded universe as sessions of calls for the real library:  *)
(* MODE which part, DEEP how much of it, OUT the file.  The library runs   *)
(* them and Trace judges what it did, as for any other session.            *)
(***************************************************************************)
EXTENDS Universe, Json, IOUtils

Mode == IOEnv.MODE
Deep == atoi(IOEnv.DEEP)

Load(b) == [op |-> "load", b |-> b]
SetBuf(b) == [op |-> "setbuf", b |-> b]
Feed == [op |-> "feed"]
DecE(ty, how, keep) == [op |-> "dec", ty |-> ty, how |-> how, keep |-> keep]
EncE(ty, v, how) == [op |-> "enc", ty |-> ty, v |-> v, how |-> how]
DecF(fs, how) == [op |-> "decf", fs |-> fs, how |-> how, keep |-> FALSE]
EncF(fs, v, how) == [op |-> "encf", fs |-> fs, v |-> v, how |-> how]

Cat(S, f(_)) == FlattenSeq([i \in 1..Len(S) |-> f(S[i])])
Over(S, f(_)) == Cat(SetToSeq(S), f)

ForBytes(ty, b) ==
    LET d == Dec(Zoo, ty, b) IN
    <<Load(b), DecE(ty, "plain", TRUE)>> \o
    (IF d.ok /\ PlainType(Zoo, ty) THEN <<SetBuf(<<>>), EncE(ty, d.v, "fn")>> ELSE <<>>) \o
    <<DecE(ty, "trace", FALSE)>>
ForVal(ty, v) == <<SetBuf(<<>>), EncE(ty, v, "fn"), Feed, DecE(ty, "plain", FALSE), SetBuf(<<7>>), EncE(ty, v, "unit")>>
ForDerived(ty, v) == <<SetBuf(<<>>)>> \o
    Over(Derived(Zoo, ty, v), LAMBDA w : <<[op |-> "enc", ty |-> ty, v |-> w, how |-> "fn", exact |-> v]>>)
ForAny(ty, v) == <<SetBuf(<<>>), EncE(ty, v, "fn"), EncE(ty, v, "fn")>>
ForBlame(ty, v) == <<SetBuf(<<>>), EncE(ty, v, "fn")>> \o
    (IF Ty(Zoo, ty).t \in {"comp", "tup"} THEN <<SetBuf(<<>>), EncF(FieldsOf(Ty(Zoo, ty)), v, IF IsComposite(v) THEN "comp" ELSE "value")>> ELSE <<>>)
ForAligned(ty, v) == Over(Aligned(Zoo, ty, v), LAMBDA a : <<SetBuf(<<>>), EncE(ty, a.w, "fn")>>)
ForFields(ty, v) ==
    LET fs == FieldsOf(Ty(Zoo, ty))
        e == EncFieldList(Zoo, fs, v)
    IN <<SetBuf(<<1>>), EncF(fs, v, "comp"), SetBuf(<<>>), EncF(fs, v, "value"), Load(e.b \o <<9>>), DecF(fs, "plain")>> \o
       <<Load(e.b), DecF(fs, "unit"), Load(e.b), DecF(fs, "value")>> \o
       (IF v.k = "named" /\ Len(v.fs) > 1 THEN <<EncF(fs, VNamed(Reverse(v.fs), 0), "comp"), EncF(fs, VUnnamed(CVals(v), 0), "comp")>> ELSE <<>>) \o
       (IF CLen(v) > 0 THEN <<EncF(fs, VUnnamed(Tail(CVals(v)), 0), "value"), EncF(fs, CVal(v, 1), "value")>> ELSE <<>>) \o
       (IF e.b # <<>> THEN <<Load(SubSeq(e.b, 1, Len(e.b) - 1)), DecF(fs, "plain")>> ELSE <<>>)
ForBits(b) ==
    Cat(<<54, 55, 56, 57, 58, 59, 60, 61>>, LAMBDA ty :
        <<SetBuf(<<>>), EncE(ty, VBits(b, 0), "fn"), Feed, DecE(ty, "plain", FALSE),
          SetBuf(<<>>), EncE(ty, VUnnamed([i \in 1..Len(b) |-> VBool(b[i], 0)], 0), "fn"),
          SetBuf(<<>>), EncE(ty, VUnnamed([i \in 1..Len(b) |-> VU(IF b[i] THEN <<1>> ELSE <<>>, 0)], 0), "fn"),
          SetBuf(<<>>), EncE(ty, VUnnamed([i \in 1..Len(b) |-> IF i % 2 = 0 THEN VBool(b[i], 0) ELSE VI([neg |-> FALSE, mag |-> IF b[i] THEN <<1>> ELSE <<>>], 0)], 0), "fn"),
          SetBuf(<<>>)>> \o
        (IF Len(b) > 3 THEN <<>> ELSE
         Cat(<<VU(<<2>>, 0), VU(Pow2(8), 0), VU(Pow2(32), 0), VU(Pow2(64), 0), VU(Pow2(127), 0), VChar(1, 0), VStr(<<49>>, 0), VUnnamed(<<VBool(TRUE, 0)>>, 0)>> \o
             [k \in 1..12 |-> VI([neg |-> k > 6, mag |-> Pow2(<<0, 1, 8, 32, 64, 126>>[1 + (k % 6)])], 0)],
             LAMBDA w : <<EncE(ty, VUnnamed([i \in 1..Len(b) |-> IF i = Len(b) THEN w ELSE VBool(b[i], 0)], 0), "fn")>>)))
\* the encoding of a value cut short anywhere, and with any one byte spoiled
ForCuts(ty, v) ==
    LET b == ExactEnc(Zoo, ty, v).b
        bads == {SubSeq(b, 1, n) : n \in 0..(Len(b) - 1)} \cup {[b EXCEPT ![n] = x] : <<n, x>> \in (1..Len(b)) \X {2, 3, 255}}
    IN Over(bads, LAMBDA c : <<Load(c), DecE(ty, "plain", TRUE), DecE(ty, "trace", FALSE)>>)
ForTower(ty, n) == Cat(<<0, 1, 2>>, LAMBDA s : Over({VBool(TRUE, 0), VU(<<0, 1>>, 0), VStr(<<97>>, 0), VUnnamed(<<>>, 0), VBits(<<TRUE>>, 0), VVar(A_, CUnnamed(<<>>), 0)},
        LAMBDA v : <<SetBuf(<<>>), EncE(ty, Tower(v, n, s), "fn")>>))

\* lookups of types that fail
Fl(gone, err, from, once) == [gone |-> gone, err |-> err, from |-> from, once |-> once]
Faults(ty) == SetToSeq({Fl(<<g>>, e, 0, FALSE) : <<g, e>> \in Reach(Zoo, ty) \X BOOLEAN}
                       \cup {Fl(<<>>, TRUE, n, e) : <<n, e>> \in (1..(IF Deep = 1 THEN 5 ELSE 12)) \X BOOLEAN})
ForFault(ty, v) ==
    LET e == ExactEnc(Zoo, ty, v)
        b == IF e.ok THEN e.b ELSE Enc(Zoo, ty, v).b
    IN Cat(Faults(ty), LAMBDA f :
        <<SetBuf(<<9>>), [op |-> "enc", ty |-> ty, v |-> v, how |-> "fn", fault |-> f]>> \o
        (IF e.ok THEN <<Load(b), [op |-> "dec", ty |-> ty, how |-> "plain", keep |-> TRUE, fault |-> f],
                        [op |-> "dec", ty |-> ty, how |-> "trace", keep |-> TRUE, fault |-> f]>> ELSE <<>>))

\* one session per type and chunk of inputs
Chunks(s, n) == [i \in 1..((Len(s) + n - 1) \div n) |-> SubSeq(s, (i - 1) * n + 1, IF i * n < Len(s) THEN i * n ELSE Len(s))]
Sessions(ids, inputs(_), f(_, _), n) ==
    Over(ids, LAMBDA ty : Cat(Chunks(SetToSeq(inputs(ty)), n), LAMBDA c :
            <<[reg |-> Zoo, evs |-> Cat(c, LAMBDA y : f(ty, y))]>>))

LongReg == <<Prim("u8"), Prim("u32"), Sq(0), Sq(1), Prim("str"), Comp(<<F(a_, 0), F(b_, 7)>>), Sq(5), Prim("bool"), Cpt(1), Sq(8),
             Tup(<<>>), Sq(10)>>
LongLens == {63, 64, 255, 256, 1000, 16383, 16384} \cup (IF Deep > 1 THEN {65535, 65536, 65600, 131072} ELSE {65536}) \cup (IF Deep > 2 THEN {1048576} ELSE {})
LongElem(i) == CASE i = 2 -> VU(<<7>>, 0) [] i = 3 -> VU(<<1, 2, 3>>, 0) [] i = 6 -> VNamed(<<[n |-> a_, v |-> VU(<<3>>, 0)], [n |-> b_, v |-> VBool(TRUE, 0)]>>, 0)
                 [] i = 9 -> VU(<<0, 1>>, 0) [] i = 11 -> VUnnamed(<<>>, 0)
LongE(what, ty, n, t, v) == [op |-> "long", what |-> what, ty |-> ty, n |-> n, t |-> t, v |-> v]
Longs == Over(LongLens, LAMBDA n :
    Cat(<<2, 3, 6, 9, 11>>, LAMBDA i : <<[reg |-> LongReg, evs |-> <<LongE("list", i, n, n, LongElem(i)), LongE("named", i, n, n, LongElem(i))>>]>>)
    \o <<[reg |-> Append(LongReg, Arr(n, 5)), evs |-> <<LongE("arr", 12, n, n, LongElem(6))>>],
         [reg |-> LongReg, evs |-> <<LongE("str", 4, n, n, 97), LongE("str", 4, n, n, 128512)>>],
         [reg |-> [i \in 1..8 |-> Zoo[54 + i]], evs |-> [i \in 1..16 |-> LongE("bits", (i - 1) \div 2, (n \div 64) * 64 + 64, (n \div 64) * 8 + 8, i % 2 = 0)]]>>)

\* 256-bit integers decoded before something fails
WideReg == <<Prim("u256"), Prim("i256"), Prim("bool"), Tup(<<0, 2>>), Comp(<<F(a_, 1), F(b_, 2)>>), VarT(<<Vr(A_, 3, <<U(0), U(2)>>)>>),
             Sq(3), Arr(2, 3), Comp(<<F(a_, 4), F(b_, 6), F(c_, 2)>>), Tup(<<1, 0, 2>>)>>
WideByte == {0, 1, 127, 128, 255}
Wides == Over(WideByte \X WideByte, LAMBDA c :
    LET w == [i \in 1..32 |-> IF i = 32 THEN c[2] ELSE c[1]]
        n(i) == <<Load(IF i = 5 THEN <<3>> \o w \o <<2>> ELSE IF i = 6 THEN <<8>> \o w \o <<1>> \o w \o <<9>> ELSE IF i = 7 THEN w \o <<1>> \o w \o <<9>>
                          ELSE IF i = 8 THEN w \o <<1, 4>> \o w \o <<1, 7>> ELSE IF i = 9 THEN w \o w \o <<5>> ELSE w \o <<2>>),
                  DecE(i, "plain", TRUE), DecE(i, "trace", FALSE),
                  Load(IF i = 5 THEN <<3>> \o w ELSE IF i = 6 THEN <<8>> \o w \o <<1>> \o w ELSE IF i = 8 THEN w \o <<1, 0>> ELSE IF i = 9 THEN w \o Tail(w) ELSE w),
                  DecE(i, "trace", FALSE)>>
    IN <<[reg |-> WideReg, evs |-> Cat(<<3, 4, 5, 6, 7, 8, 9>>, n)]>>)

StructIds == {i \in ZooIds : Ty(Zoo, i).t \in {"comp", "tup"}}
Cases ==
    CASE Mode = "bytes" -> Sessions(ZooIds, LAMBDA ty : Strings(SmallBytes, Deep), ForBytes, 200)
      [] Mode = "vals" -> Sessions(ZooPlain, LAMBDA ty : Inh(Zoo, ty, 8 * Deep, 2), ForVal, 50)
      [] Mode = "derived" -> Sessions(ZooPlain, LAMBDA ty : Inh(Zoo, ty, 3 * Deep, 2), ForDerived, 10)
      [] Mode = "any" -> Sessions(ZooIds, LAMBDA ty : IF Deep = 1 THEN Any1 ELSE Any2, ForAny, 100)
      [] Mode = "blame" -> Sessions(ZooPlain, LAMBDA ty : UNION {Spoiled(v) : v \in Inh(Zoo, ty, 4 * Deep, 2)}, ForBlame, 100) \o
            Sessions({20, 54, 57, 61}, LAMBDA ty : UNION {MisfitLists(n, VU(<<1>>, 0), {VU(<<0, 1>>, 0), VI([neg |-> TRUE, mag |-> <<1>>], 0), Misfit}, {0, 1, 7, 8, 9, 10, 31, n - 1})
                                                          : n \in {1, 2, 3, 9, 12, 40} \cup (IF Deep > 1 THEN {64, 100} ELSE {})}, ForBlame, 50)
      [] Mode = "long" -> Longs
      [] Mode = "wide" -> Wides
      [] Mode = "aligned" -> Sessions(ZooAligned, LAMBDA ty : Inh(Zoo, ty, 6 * Deep, 2), ForAligned, 10)
      [] Mode = "cuts" -> Sessions(ZooPlain, LAMBDA ty : Inh(Zoo, ty, 3 * Deep, 2), ForCuts, 10)
      [] Mode = "fields" -> Sessions(StructIds \cap ZooPlain, LAMBDA ty : Inh(Zoo, ty, 6 * Deep, 2), ForFields, 20)
      [] Mode = "faults" -> Sessions(ZooPlain, LAMBDA ty : LET S == Inh(Zoo, ty, Deep, 2) IN S \cup UNION {Derived(Zoo, ty, v) : v \in S} \cup UNION {Spoiled(v) : v \in S}, ForFault, 6)
      [] Mode = "bits" -> Sessions({54}, LAMBDA ty : UNION {[1..k -> BOOLEAN] : k \in 0..(4 * Deep)} \cup SampleBits, LAMBDA ty, b : ForBits(b), 20)
      [] Mode = "towers" -> Sessions({i \in ZooIds : ~ListCycle(Zoo, i)},
                LAMBDA ty : LET h == IF Recursive(Zoo, ty) THEN 64 ELSE TowerHeight(Rank(Zoo, ty)) IN {1, 2, h} \cup (IF Deep > 1 THEN {3, 5, h \div 2, h - 1} ELSE {}), ForTower, 10)

ASSUME ndJsonSerialize(IOEnv.OUT, Cases)
ASSUME PrintT(<<"GEN", Mode, Len(Cases)>>)
VARIABLE z
Spec == z = 0 /\ [][FALSE]_z
=============================================================================
