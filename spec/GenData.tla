------------------------------ MODULE GenData ------------------------------
(* Writes the bounded universe of conversions, lookups and constructors as  *)
(* sessions of calls for the real library, as Gen does for the SCALE part.  *)
EXTENDS DataUniverse, Json, IOUtils

Mode == IOEnv.MODE
Deep == atoi(IOEnv.DEEP)

Cat(S, f(_)) == FlattenSeq([i \in 1..Len(S) |-> f(S[i])])
Over(S, f(_)) == Cat(SetToSeq(S), f)
Chunks(s, n) == [i \in 1..((Len(s) + n - 1) \div n) |-> SubSeq(s, (i - 1) * n + 1, IF i * n < Len(s) THEN i * n ELSE Len(s))]
Sessions(S, f(_), n) == LET c == Chunks(SetToSeq(S), n) IN [i \in 1..Len(c) |-> [reg |-> <<>>, evs |-> Cat(c[i], f)]]

DeE(v, part, t) == [op |-> "de", v |-> v, part |-> part, t |-> t, fix |-> ""]
KindTypes == {[t |-> k] : k \in Kinds5 \cup {"bits"}}
ForSame(v) == Over(KindTypes, LAMBDA t : <<DeE(v, "value", t), DeE(v, "part", t)>>)
              \o <<DeE(v, "def", [t |-> "value"]), DeE(v, "fn", [t |-> "def"]), [op |-> "toval", x |-> [k |-> "val", v |-> v]]>>
ForSer(v) == Cat(<<"value", "def", "part">>, LAMBDA p : <<[op |-> "ser", v |-> v, part |-> p]>>)
             \o <<[op |-> "json", v |-> v, how |-> "str"], [op |-> "json", v |-> v, how |-> "reader"]>>
ForTree(d) == <<[op |-> "toval", x |-> d]>>
              \o (IF Plain(d) THEN Over(Kinds5 \cup {"bits"}, LAMBDA k : <<[op |-> "any", x |-> d, as |-> k]>>) ELSE <<>>)
\* strings of every ownership
Hows == {[k |-> j, s |-> s, how |-> h] : <<j, s, h>> \in {"str"} \X {NA, <<>>, <<233, 97>>} \X {0, 1, 2}}
HowTrees == Hows \cup {[k |-> "seq", xs |-> <<s>>] : s \in Hows} \cup {[k |-> "map", es |-> <<[key |-> s, val |-> s]>>] : s \in Hows}
            \cup {[k |-> "map", es |-> <<[key |-> DStr(NameKey), val |-> s], [key |-> DStr(ValuesKey), val |-> [k |-> "unit"]]>>] : s \in Hows}

Round(t) == Over(DataOf(t, Deep), LAMBDA x : <<[op |-> "rt", t |-> t, x |-> x, fix |-> ""]>>)
\* the value of every datum of the type, and all near it
ForNear(t) == Over(DataOf(t, Deep), LAMBDA x : LET v == ToVal(x).x IN
    <<DeE(v, "fn", t), DeE(v, "part", t)>> \o Over(NearVal(v), LAMBDA w : <<DeE(w, "value", t), DeE(w, "part", t)>>))
\* every type against every value
Fits2(y) == <<DeE(y[1], "value", y[2]), DeE(y[1], "part", y[2])>>
MatrixVals == AtMost(Leaves, 30) \cup AtMost(Shallow, 40 * Deep) \cup Marks \cup VarForms \cup ByteLists \cup Opts \cup (IF Deep > 1 THEN AtMost(Deep2, 60) ELSE {})

ForPath(y) == <<[op |-> "at", v |-> y[1], part |-> "value", steps |-> y[2]]>>
              \o (IF Len(y[2]) = 1 THEN <<[op |-> "at", v |-> y[1], part |-> "part", steps |-> y[2]]>> ELSE <<>>)
Spelled == {AtI(NatOf(i), h) : <<i, h>> \in (0..2) \X (0..2)} \cup {AtS(s, h) : <<s, h>> \in {NA, NB, <<>>} \X (0..3)}
MapE(what, v) == [op |-> "mapctx", what |-> what, v |-> v]
ForCtx(v) == LET n == NumberFrom(v, 1) z == [NumberFrom(v, 0) EXCEPT !.ctx = 0] IN
    <<MapE("value", n), MapE("def", z), MapE("part", z), MapE("remove", n), MapE("value", StripCtx(v))>>

B(how, to, f, x) == [[op |-> "build", how |-> how, to |-> to] EXCEPT !.op = "build"] @@ (f :> x)
Fs == {<<>>, <<[n |-> NA, v |-> Bg(<<1>>)]>>, <<[n |-> NB, v |-> Flag(TRUE)], [n |-> NA, v |-> VUnnamed(<<>>, 0)], [n |-> NB, v |-> Bg(<<2>>)]>>}
Vs == {<<>>, <<Flag(TRUE)>>, <<Bg(<<1>>), VVar(<<65>>, CUnnamed(<<>>), 0), VStr(NA, 0)>>}
Bs == {<<>>, <<TRUE>>, <<TRUE, FALSE, FALSE>>, [i \in 1..9 |-> i % 2 = 0]}
Ws == {<<>>, <<0>>, <<255, 1>>, <<1, 2, 3, 128>>}
IntTrees == UNION {{DInt(ty, x) : x \in EdgesOf(ty)} : ty \in UTypes \cup ITypes}
            \cup {DInt("usize", x) : x \in EdgesOf("u64")} \cup {DInt("isize", x) : x \in EdgesOf("i64")}
Comps == {v \in AtMost(Shallow, 60) : IsComposite(v)}
Vars2 == {v \in Shallow : v.k = "var"}
Prims == {v \in Leaves : IsPrim(v)} \cup Big256
Tos == {"value", "def", "prim", "into"}
Tos2 == {"comp", "def", "value"}
Builds ==
    {B(h, "value", "fs", x) : <<h, x>> \in {"named_composite", "named_composite_it"} \X Fs}
    \cup {B(h, "value", "vs", x) : <<h, x>> \in {"unnamed_composite", "unnamed_composite_it"} \X Vs}
    \cup {B("named_variant", "value", "fs", x) @@ ("n" :> n) : <<n, x>> \in {NA, <<>>} \X Fs}
    \cup {B("unnamed_variant", "value", "vs", x) @@ ("n" :> n) : <<n, x>> \in {NA, <<>>} \X Vs}
    \cup {B(h, to, "bits", x) : <<h, to, x>> \in {"bit_sequence", "from_bits"} \X {"value", "def"} \X Bs}
    \cup {B(h, to, "x", x) : <<h, to, x>> \in {"string", "from_string", "from_str"} \X Tos \X {DStr(<<>>), DStr(NA), DStr(<<233, 0>>)}}
    \cup {B(h, to, "x", x) : <<h, to, x>> \in {"bool", "from_bool"} \X Tos \X {DBool(TRUE), DBool(FALSE)}}
    \cup {B(h, to, "x", x) : <<h, to, x>> \in {"char", "from_char"} \X Tos \X {[k |-> "char", c |-> c] : c \in {0, 97, 128512}}}
    \cup {B(h, "value", "x", x) : <<h, x>> \in {"u128", "prim_u128"} \X {DInt("u128", x) : x \in EdgesOf("u128")}}
    \cup {B(h, "value", "x", x) : <<h, x>> \in {"i128", "prim_i128"} \X {DInt("i128", x) : x \in EdgesOf("i128")}}
    \cup {B("from_int", to, "x", x) : <<to, x>> \in Tos \X IntTrees}
    \cup {B(h, to, "w", x) : <<h, to, x>> \in {"from_bytes", "from_vec_u8", "from_vec_i16", "from_vec_vec"} \X Tos2 \X Ws}
    \cup {B("from_vec", to, "vs", x) : <<to, x>> \in Tos2 \X Vs}
    \cup {B(h, to, "fs", x) : <<h, to, x>> \in {"from_pairs", "from_pairs_str"} \X Tos2 \X Fs}
    \cup {B("from_pairs_bool", to, "fs", x) : <<to, x>> \in Tos2 \X {<<>>, <<[n |-> NB, v |-> Flag(TRUE)], [n |-> NA, v |-> Flag(FALSE)]>>}}
    \cup {B(h, to, "v", x) : <<h, to, x>> \in {"variant", "from_variant"} \X {"value", "def"} \X Vars2}
    \cup {B("variant_fields", "value", "v", x) : x \in Vars2}
    \cup {B(h, to, "v", x) : <<h, to, x>> \in {"primitive", "from_prim"} \X {"value", "def"} \X Prims}
    \cup {B("from_comp", to, "v", x) : <<to, x>> \in {"value", "def"} \X Comps}
    \cup {B(IF x.k = "named" THEN "comp_named" ELSE "comp_unnamed", "value", "v", x) : x \in Comps}
    \cup {B("without_context", "value", "v", x) : x \in AtMost(Shallow, 30)}
    \cup {B("with_context", "value", "v", x) @@ ("ctx" :> 5) : x \in AtMost(Shallow, 30)}
One(e) == <<e>>
ForAcc(v) == <<[op |-> "acc", v |-> v, part |-> "value"], [op |-> "acc", v |-> v, part |-> "part"]>>

\* formats that fail anywhere, and announce any size (0: honest or silent, 1: none, 2: right, 3..9: wrong)
Thru(dir) == [op |-> "thru", dir |-> dir]
BadHints == {3, 5, 7, 8, 9}
\* (what the bit sequence's own implementation does with sizes is not this library's)
HintsFor(d, k) == IF k = "bits" THEN {1, 2} ELSE IF Deep > 1 \/ d.k \in {"seq", "map", "struct", "nstruct", "svar", "tvar"} THEN BadHints ELSE {0, 9}
ThruTree(d) == <<Thru("toval") @@ [x |-> d, hint |-> 9], Thru("toval") @@ [x |-> d, hint |-> 1]>>
    \o (IF Plain(d) THEN Over({<<k, h>> \in (Kinds5 \cup {"bits"}) \X (0..9) : h \in HintsFor(d, k)},
                               LAMBDA y : <<Thru("any") @@ [x |-> d, as |-> y[1], hint |-> y[2]]>>) ELSE <<>>)
ThruVal(v) == Cat(<<"value", "def", "part">>, LAMBDA p : <<Thru("ser") @@ [v |-> v, part |-> p, hint |-> 0]>>)
ThruDe(v, t) == <<Thru("de") @@ [v |-> v, part |-> "value", t |-> t, hint |-> 0], Thru("de") @@ [v |-> v, part |-> "part", t |-> t, hint |-> 0]>>
ThruType(t) == Over(DataOf(t, 2), LAMBDA x : LET v == ToVal(x).x IN ThruDe(v, t) \o Over(AtMost(NearVal(v), 3 * Deep), LAMBDA w : ThruDe(w, t)))

Cases ==
    CASE Mode = "same" -> Sessions(DataVals(Deep), ForSame, 20)
      [] Mode = "ser" -> Sessions(DataVals(Deep), ForSer, 50) \o Sessions(Trees(Deep), ForTree, 40) \o Sessions(HowTrees, ForTree, 40)
      [] Mode = "types" -> Sessions(PlainTypes, Round, 5) \o Sessions(PlainTypes, ForNear, 1)
      [] Mode = "matrix" -> Sessions(MatrixVals \X Types, Fits2, 200) \o Sessions(EdgeIntVals \X {TInt(ty) : ty \in UTypes \cup ITypes}, Fits2, 200)
      [] Mode = "paths" -> Sessions(PathVals \X (Paths(Deep) \cup {<<s>> : s \in Spelled}), ForPath, 200)
      [] Mode = "ctx" -> Sessions(PathVals \cup Shallow \cup Few \cup (IF Deep > 1 THEN Deep2 ELSE {}), ForCtx, 20)
      [] Mode = "thru" -> Sessions(Trees(Deep), ThruTree, 10) \o Sessions(DataVals(Deep), ThruVal, 60)
                          \o Sessions(PlainTypes \cup {t \in Others \ {TNew([t |-> "value"])} : t.t \in {"nstruct", "enum"}}, ThruType, 1)
      [] Mode = "build" -> Sessions(Builds, One, 100) \o Sessions(DataVals(Deep), ForAcc, 50)

ASSUME ndJsonSerialize(IOEnv.OUT, Cases)
ASSUME PrintT(<<"GEN", Mode, Len(Cases)>>)
VARIABLE z
Spec == z = 0 /\ [][FALSE]_z
=============================================================================
