-------------------------------- MODULE Data --------------------------------
(***************************************************************************)
(* Values and the serde data model.  A datum ("tree") is a record with k:  *)
(*   bool b | int ty,neg,i | f32 | f64 | char c | str s | bytes w | none   *)
(*   some x | unit | ustruct | nstruct x | seq/tup/tstruct xs | map es     *)
(*   struct fs | uvar n | nvar n,x | tvar n,xs | svar n,fs | val v | fail  *)
(* (es: [key, val], fs: [n, v]), and a described type is a record with t.  *)
(*   ToVal     what a datum becomes as a value (the value serializer)      *)
(*   SerTree   what a value serializes as                                  *)
(*   View      how a value presents itself to be deserialized              *)
(*   FA        reading a value, or a part, from self-describing data       *)
(*   De        reading a described type from a value                       *)
(*   JsonText  the text of serialized data                                 *)
(* Reading yields [r |-> "ok", x |-> ..], "err", or "any" where nothing is *)
(* specified.                                                              *)
(***************************************************************************)
EXTENDS Values

Ident == <<95, 95, 98, 105, 116, 118, 101, 99, 95, 95, 118, 97, 108, 117, 101, 115, 95, 95>>   \* __bitvec__values__
NameKey == <<110, 97, 109, 101>>
ValuesKey == <<118, 97, 108, 117, 101, 115>>
SomeName == <<83, 111, 109, 101>>
NoneName == <<78, 111, 110, 101>>

OkR(x) == [r |-> "ok", x |-> x]
ErrR == [r |-> "err"]
AnyR == [r |-> "any"]
\* a list of results: the first that is not ok decides
All(rs) == LET bad == {i \in 1..Len(rs) : rs[i].r # "ok"} IN
    IF bad = {} THEN OkR([i \in 1..Len(rs) |-> rs[i].x])
    ELSE rs[CHOOSE i \in bad : \A j \in bad : i <= j]
Then(r, f(_)) == IF r.r = "ok" THEN OkR(f(r.x)) ELSE r

Widths == [u8 |-> 1, u16 |-> 2, u32 |-> 4, u64 |-> 8, u128 |-> 16, i8 |-> 1, i16 |-> 2, i32 |-> 4, i64 |-> 8, i128 |-> 16]
UTypes == {"u8", "u16", "u32", "u64", "u128"}
ITypes == {"i8", "i16", "i32", "i64", "i128"}
FitsTy(x, ty) == IF ty \in UTypes THEN ~x.neg /\ FitsU(x.mag, Widths[ty]) ELSE FitsI(x, Widths[ty])
DInt(ty, x) == [k |-> "int", ty |-> ty, neg |-> x.neg, i |-> x.mag]
DBool(b) == [k |-> "bool", b |-> b]
DStr(s) == [k |-> "str", s |-> s]
IntOfD(d) == [neg |-> d.neg, mag |-> d.i]
Pos(m) == [neg |-> FALSE, mag |-> m]
IntOfNode(v) == IF v.k = "u128" THEN Pos(v.u) ELSE IntOfV(v)

(***************************************************************************)
(* From data to a value                                                    *)
(***************************************************************************)
\* the smallest integer type of its class that holds it
Smallest(x, tys) == tys[CHOOSE i \in 1..5 : FitsTy(x, tys[i]) /\ \A j \in 1..(i - 1) : ~FitsTy(x, tys[j])]
UOrder == <<"u8", "u16", "u32", "u64", "u128">>
IOrder == <<"i8", "i16", "i32", "i64", "i128">>

BytesTree(w, ty) == [i \in 1..Len(w) |-> DInt(ty, Pos(NatOf(w[i])))]
BoolTrees(b) == [i \in 1..Len(b) |-> DBool(b[i])]
\* h: the announced length
RECURSIVE SerTree(_)
SerComp(c) ==
    IF c.k = "named" THEN [k |-> "map", h |-> Len(c.fs), es |-> [i \in 1..Len(c.fs) |-> [key |-> DStr(c.fs[i].n), val |-> SerTree(c.fs[i].v)]]]
    ELSE [k |-> "seq", h |-> Len(c.vs), xs |-> [i \in 1..Len(c.vs) |-> SerTree(c.vs[i])]]
SerTree(v) ==
    CASE v.k = "bool" -> DBool(v.b)
      [] v.k = "char" -> [k |-> "char", c |-> v.c]
      [] v.k = "str" -> DStr(v.s)
      [] v.k = "u128" -> DInt(Smallest(Pos(v.u), UOrder), Pos(v.u))
      [] v.k = "i128" -> DInt(Smallest(IntOfV(v), IOrder), IntOfV(v))
      [] v.k \in {"u256", "i256"} -> [k |-> "tup", h |-> 32, xs |-> BytesTree(v.w, "u8")]
      [] v.k = "bits" -> [k |-> "map", h |-> 1, es |-> <<[key |-> DStr(Ident), val |-> [k |-> "seq", h |-> Len(v.bits), xs |-> BoolTrees(v.bits)]]>>]
      [] v.k = "var" -> [k |-> "map", h |-> 2, es |-> <<[key |-> DStr(NameKey), val |-> DStr(v.n)], [key |-> DStr(ValuesKey), val |-> SerComp(v.c)]>>]
      [] OTHER -> SerComp(v)

ValErr(e) == [r |-> "err", e |-> e]
BytesVal(w) == VUnnamed([i \in 1..Len(w) |-> VU(NatOf(w[i]), 0)], 0)
RECURSIVE ToVal(_)
\* the fields of a struct
ToFields(fs) == LET rs == All([i \in 1..Len(fs) |-> ToVal(fs[i].v)]) IN
    Then(rs, LAMBDA xs : [i \in 1..Len(fs) |-> [n |-> fs[i].n, v |-> xs[i]]])
\* only strings and characters can be names
ToKey(d) == LET r == ToVal(d) IN
    IF r.r # "ok" THEN r
    ELSE IF r.x.k = "str" THEN OkR(r.x.s) ELSE IF r.x.k = "char" THEN OkR(<<r.x.c>>) ELSE ValErr("key")
ToEntry(e) == LET k == ToKey(e.key) IN IF k.r # "ok" THEN k ELSE Then(ToVal(e.val), LAMBDA v : [n |-> k.x, v |-> v])
ToVal(d) ==
    CASE d.k = "bool" -> OkR(VBool(d.b, 0))
      [] d.k = "int" -> OkR(IF d.ty \in UTypes THEN VU(d.i, 0) ELSE VI(IntOfD(d), 0))
      [] d.k \in {"f32", "f64"} -> ValErr("float")
      [] d.k = "char" -> OkR(VChar(d.c, 0))
      [] d.k = "str" -> OkR(VStr(d.s, 0))
      [] d.k = "bytes" -> OkR(BytesVal(d.w))
      [] d.k = "none" -> OkR(VVar(NoneName, CUnnamed(<<>>), 0))
      [] d.k = "some" -> Then(ToVal(d.x), LAMBDA v : VVar(SomeName, CUnnamed(<<v>>), 0))
      [] d.k \in {"unit", "ustruct"} -> OkR(VUnnamed(<<>>, 0))
      [] d.k = "nstruct" -> Then(ToVal(d.x), LAMBDA v : VUnnamed(<<v>>, 0))
      [] d.k \in {"seq", "tup", "tstruct"} -> Then(All([i \in 1..Len(d.xs) |-> ToVal(d.xs[i])]), LAMBDA vs : VUnnamed(vs, 0))
      [] d.k = "map" -> Then(All([i \in 1..Len(d.es) |-> ToEntry(d.es[i])]), LAMBDA fs : VNamed(fs, 0))
      [] d.k = "struct" -> Then(ToFields(d.fs), LAMBDA fs : VNamed(fs, 0))
      [] d.k = "uvar" -> OkR(VVar(d.n, CUnnamed(<<>>), 0))
      [] d.k = "nvar" -> Then(ToVal(d.x), LAMBDA v : VVar(d.n, CUnnamed(<<v>>), 0))
      [] d.k = "tvar" -> Then(All([i \in 1..Len(d.xs) |-> ToVal(d.xs[i])]), LAMBDA vs : VVar(d.n, CUnnamed(vs), 0))
      [] d.k = "svar" -> Then(ToFields(d.fs), LAMBDA fs : VVar(d.n, CNamed(fs), 0))
      [] d.k = "val" -> ToVal(SerTree(d.v))
      [] OTHER -> ValErr("custom")

(***************************************************************************)
(* Reading from self-describing data                                       *)
(***************************************************************************)
\* a value as a self-describing document ("venum": an enum whose content is a composite)
RECURSIVE View(_)
ViewC(c) == IF c.k = "named" THEN [k |-> "map", es |-> [i \in 1..Len(c.fs) |-> [key |-> DStr(c.fs[i].n), val |-> View(c.fs[i].v)]]]
            ELSE [k |-> "seq", xs |-> [i \in 1..Len(c.vs) |-> View(c.vs[i])]]
View(v) ==
    CASE v.k \in {"u256", "i256"} -> [k |-> "bytes", w |-> v.w]
      [] v.k = "u128" -> DInt("u128", Pos(v.u))
      [] v.k = "i128" -> DInt("i128", IntOfV(v))
      [] v.k = "var" -> [k |-> "venum", n |-> v.n, x |-> ViewC(v.c)]
      [] v.k = "bits" -> [k |-> "map", es |-> <<[key |-> DStr(Ident), val |-> [k |-> "seq", xs |-> BoolTrees(v.bits)]]>>]
      [] IsComposite(v) -> ViewC(v)
      [] OTHER -> SerTree(v)

Entries(d) == IF d.k = "struct" THEN [i \in 1..Len(d.fs) |-> [key |-> DStr(d.fs[i].n), val |-> d.fs[i].v]] ELSE d.es
IsSeq(d) == d.k \in {"seq", "tup", "tstruct"}
IsMap(d) == d.k \in {"map", "struct"}
\* what a string can be read from
AsString(d) == CASE d.k = "str" -> OkR(d.s) [] d.k = "char" -> OkR(<<d.c>>) [] d.k = "bytes" -> AnyR [] OTHER -> ErrR
AsBits(d) == IF ~IsSeq(d) THEN ErrR
             ELSE IF \A i \in 1..Len(d.xs) : d.xs[i].k = "bool" THEN OkR([i \in 1..Len(d.xs) |-> d.xs[i].b]) ELSE ErrR

RECURSIVE FAValue(_), FAComp(_)
FAList(xs) == All([i \in 1..Len(xs) |-> FAValue(xs[i])])
FAEntries(es) == All([i \in 1..Len(es) |-> LET k == AsString(es[i].key) IN
                      IF k.r # "ok" THEN k ELSE Then(FAValue(es[i].val), LAMBDA v : [n |-> k.x, v |-> v])])
\* a composite (without a context)
FAComp(d) ==
    CASE IsSeq(d) -> Then(FAList(d.xs), LAMBDA vs : CUnnamed(vs))
      [] IsMap(d) -> Then(FAEntries(Entries(d)), LAMBDA fs : CNamed(fs))
      [] d.k = "bytes" -> OkR(CUnnamed([i \in 1..Len(d.w) |-> VU(NatOf(d.w[i]), 0)]))
      [] d.k \in {"unit", "ustruct"} -> OkR(CUnnamed(<<>>))
      [] d.k = "nstruct" -> FAComp(d.x)
      [] OTHER -> ErrR
ContentOf(d) == CASE d.k = "uvar" -> OkR(CUnnamed(<<>>))
                  [] d.k \in {"nvar", "venum"} -> FAComp(d.x)
                  [] d.k = "tvar" -> FAComp([k |-> "seq", xs |-> d.xs])
                  [] d.k = "svar" -> FAComp([k |-> "struct", fs |-> d.fs])
\* a variant: an enum, an option, or the form variants serialize as
FAVariant(d) ==
    CASE d.k \in {"uvar", "nvar", "tvar", "svar", "venum"} -> Then(ContentOf(d), LAMBDA c : VVar(d.n, c, 0))
      [] d.k = "none" -> OkR(VVar(NoneName, CUnnamed(<<>>), 0))
      [] d.k = "some" -> Then(FAValue(d.x), LAMBDA v : VVar(SomeName, CUnnamed(<<v>>), 0))
      [] IsMap(d) ->
            LET es == Entries(d)
                ks == [i \in 1..Len(es) |-> AsString(es[i].key)]
                with(n) == {i \in 1..Len(es) : ks[i].r = "ok" /\ ks[i].x = n}
            IN IF \E i \in 1..Len(es) : ks[i].r = "any" THEN AnyR
               ELSE IF \E i \in 1..Len(es) : ks[i].r = "err" \/ (ks[i].r = "ok" /\ ks[i].x \notin {NameKey, ValuesKey}) THEN ErrR
               ELSE IF with(NameKey) = {} \/ with(ValuesKey) = {} THEN ErrR
               ELSE IF Len(es) > 2 THEN AnyR
               ELSE LET n == AsString(es[CHOOSE i \in with(NameKey) : TRUE].val)
                        c == FAComp(es[CHOOSE i \in with(ValuesKey) : TRUE].val)
                    IN IF n.r = "err" \/ c.r = "err" THEN ErrR
                       ELSE IF n.r = "any" \/ c.r = "any" THEN AnyR ELSE OkR(VVar(n.x, c.x, 0))
      [] OTHER -> ErrR
\* own: the data are a value's (whose bytes come as 128-bit integers)
FAPrim(d, own) ==
    CASE d.k \in {"bool", "char", "str", "int"} -> ToVal(d)
      [] d.k = "bytes" -> IF Len(d.w) = 32 THEN OkR(VU256(d.w, 0)) ELSE ErrR
      [] IsSeq(d) ->
            LET isByte(x) == x.k = "int" /\ FitsTy(IntOfD(x), "u8") /\ (own \/ x.ty \notin {"u128", "i128"}) IN
            IF Len(d.xs) = 32 /\ \A i \in 1..32 : isByte(d.xs[i]) THEN OkR(VU256([i \in 1..32 |-> IntOf(d.xs[i].i)], 0)) ELSE ErrR
      [] OTHER -> ErrR
FAValue(d) ==
    CASE d.k \in {"bool", "char", "str", "int"} -> ToVal(d)
      [] IsMap(d) ->
            LET es == Entries(d) IN
            IF es = <<>> THEN OkR(VNamed(<<>>, 0))
            ELSE LET k == AsString(es[1].key) IN
                 IF k.r # "ok" THEN k
                 ELSE IF k.x = Ident
                      THEN LET b == AsBits(es[1].val) IN
                           IF b.r # "ok" THEN b ELSE IF Len(es) > 1 THEN AnyR ELSE OkR(VBits(b.x, 0))
                      ELSE Then(FAEntries(es), LAMBDA fs : VNamed(fs, 0))
      [] IsSeq(d) \/ d.k \in {"bytes", "unit", "ustruct"} -> Then(FAComp(d), LAMBDA c : VUnnamed(c.vs, 0))
      [] d.k = "nstruct" -> FAValue(d.x)
      [] d.k \in {"none", "some", "uvar", "nvar", "tvar", "svar", "venum"} -> FAVariant(d)
      [] OTHER -> ErrR
NodeOfC(c) == IF c.k = "named" THEN VNamed(c.fs, 0) ELSE VUnnamed(c.vs, 0)
FABits(d) == Then(AsBits(d), LAMBDA b : VBits(b, 0))
Kinds5 == {"value", "def", "comp", "variant", "prim"}
FA(as, d, own) ==
    CASE as \in {"value", "def"} -> FAValue(d)
      [] as = "comp" -> Then(FAComp(d), NodeOfC)
      [] as = "variant" -> FAVariant(d)
      [] as = "prim" -> FAPrim(d, own)
      [] as = "bits" -> FABits(d)

(***************************************************************************)
(* Reading a described type from a value (whole) or from the composite,    *)
(* variant or primitive in it                                              *)
(***************************************************************************)
DVal(v) == [k |-> "val", v |-> v]
RECURSIVE De(_, _, _)
DeAll(ts, vs) == All([i \in 1..Len(ts) |-> De(ts[i], vs[i], TRUE)])
WithNames(fs, xs) == [i \in 1..Len(fs) |-> [n |-> fs[i].n, v |-> xs[i]]]
\* struct fields from the fields of a composite
DeByName(fs, es) ==
    LET at(n) == {j \in 1..Len(es) : es[j].n = n}
        got(f) == IF at(f.n) = {} THEN (IF f.t.t = "opt" THEN OkR([k |-> "none"]) ELSE ErrR)
                  ELSE De(f.t, es[CHOOSE j \in at(f.n) : TRUE].v, TRUE)
    IN IF \E i \in 1..Len(fs) : \E a, b \in at(fs[i].n) : a # b THEN ErrR
       ELSE Then(All([i \in 1..Len(fs) |-> got(fs[i])]), LAMBDA xs : WithNames(fs, xs))
DeFields(fs, c) ==
    IF c.k = "named" THEN DeByName(fs, c.fs)
    ELSE IF Len(c.vs) < Len(fs) THEN ErrR
    ELSE Then(DeAll([i \in 1..Len(fs) |-> fs[i].t], c.vs), LAMBDA xs : WithNames(fs, xs))
DeTuple(ts, c) == IF CLen(c) # Len(ts) THEN ErrR ELSE DeAll(ts, CVals(c))
De(t, v, whole) ==
    LET comp == IsComposite(v)
        has == comp \/ v.k = "var"                \* there are fields
        c == IF v.k = "var" THEN v.c ELSE v
    IN IF v.k \in {"u256", "i256"} /\ t.t \notin {"any", "value", "def", "comp", "variant", "prim", "nstruct"} THEN AnyR
    ELSE CASE
       t.t \in UTypes \cup ITypes ->
            IF v.k \in {"u128", "i128"} /\ FitsTy(IntOfNode(v), t.t) THEN OkR(DInt(t.t, IntOfNode(v))) ELSE ErrR
    [] t.t = "bool" -> IF v.k = "bool" THEN OkR(DBool(v.b)) ELSE ErrR
    [] t.t = "char" -> IF v.k = "char" THEN OkR([k |-> "char", c |-> v.c])
                       ELSE IF v.k = "str" /\ Len(v.s) = 1 THEN OkR([k |-> "char", c |-> v.s[1]]) ELSE ErrR
    [] t.t = "str" -> IF v.k = "str" THEN OkR(DStr(v.s)) ELSE IF v.k = "char" THEN OkR(DStr(<<v.c>>)) ELSE ErrR
    [] t.t = "any" -> OkR([k |-> "any"])
    [] t.t \in Kinds5 -> Then(FA(t.t, View(v), TRUE), DVal)
    [] t.t = "bits" -> IF has THEN Then(FABits([k |-> "seq", xs |-> [i \in 1..CLen(c) |-> View(CVal(c, i))]]), DVal) ELSE ErrR
    [] t.t = "unit" -> IF has /\ CLen(c) = 0 THEN OkR([k |-> "unit"]) ELSE ErrR
    [] t.t = "ustruct" -> IF has /\ CLen(c) = 0 THEN OkR([k |-> "ustruct"]) ELSE ErrR
    [] t.t = "opt" ->
            IF whole /\ v.k = "var" /\ v.c.k = "unnamed"
            THEN IF v.n = SomeName /\ Len(v.c.vs) = 1 THEN Then(De(t.x, v.c.vs[1], TRUE), LAMBDA x : [k |-> "some", x |-> x])
                 ELSE IF v.n = NoneName /\ v.c.vs = <<>> THEN OkR([k |-> "none"]) ELSE ErrR
            ELSE ErrR
    [] t.t = "nstruct" ->                      \* the wrapper of a newtype is not there
            IF v.k = "bits" THEN ErrR
            ELSE LET r == De(t.x, v, FALSE) IN
                 IF r.r = "err" /\ comp /\ CLen(c) = 1 THEN AnyR ELSE Then(r, LAMBDA x : [k |-> "nstruct", x |-> x])
    [] t.t \in {"bytes", "bytebuf"} ->
            IF comp /\ \A i \in 1..CLen(c) : CVal(c, i).k = "u128" /\ Len(CVal(c, i).u) < 2
            THEN OkR([k |-> "bytes", w |-> [i \in 1..CLen(c) |-> IntOf(CVal(c, i).u)]]) ELSE ErrR
    [] t.t = "seq" -> IF has THEN Then(All([i \in 1..CLen(c) |-> De(t.x, CVal(c, i), TRUE)]), LAMBDA xs : [k |-> "seq", xs |-> xs]) ELSE ErrR
    [] t.t \in {"tup", "tstruct"} -> IF has THEN Then(DeTuple(t.xs, c), LAMBDA xs : [k |-> t.t, xs |-> xs]) ELSE ErrR
    [] t.t \in {"map", "cmap"} ->
            IF ~has \/ c.k # "named" THEN ErrR
            ELSE IF t.t = "cmap" /\ \E i \in 1..Len(c.fs) : Len(c.fs[i].n) # 1 THEN ErrR
            ELSE LET key(n) == IF t.t = "map" THEN DStr(n) ELSE [k |-> "char", c |-> n[1]] IN
                 Then(All([i \in 1..Len(c.fs) |-> Then(De(t.x, c.fs[i].v, TRUE), LAMBDA x : [key |-> key(c.fs[i].n), val |-> x])]),
                      LAMBDA es : [k |-> "map", es |-> es])
    [] t.t = "struct" ->
            LET done(xs) == [k |-> "struct", fs |-> xs] IN
            IF comp \/ (v.k = "var" /\ ~whole) THEN Then(DeFields(t.fs, c), done)
            ELSE IF v.k = "bits" THEN (IF \E i \in 1..Len(t.fs) : t.fs[i].n = Ident THEN AnyR ELSE Then(DeByName(t.fs, <<>>), done))
            ELSE ErrR
    [] t.t = "enum" ->
            IF v.k # "var" \/ \A i \in 1..Len(t.vs) : t.vs[i].n # v.n THEN ErrR
            ELSE LET w == t.vs[CHOOSE i \in 1..Len(t.vs) : t.vs[i].n = v.n /\ \A j \in 1..(i - 1) : t.vs[j].n # v.n] IN
                 CASE w.k = "unit" -> IF CLen(c) = 0 THEN OkR([k |-> "uvar", n |-> v.n]) ELSE ErrR
                   [] w.k = "new" -> AnyR
                   [] w.k = "tup" -> Then(DeTuple(w.xs, c), LAMBDA xs : [k |-> "tvar", n |-> v.n, xs |-> xs])
                   [] w.k = "struct" -> Then(DeFields(w.fs, c), LAMBDA xs : [k |-> "svar", n |-> v.n, fs |-> xs])

\* no newtypes anywhere in the type (types with their own ways of reading, such as flattened structs and
\* tagged and untagged enums, are plain: their data come back)
RECURSIVE Plain25(_)
Plain25(t) ==
    CASE t.t = "nstruct" -> FALSE
      [] t.t \in {"opt", "seq", "map", "cmap"} -> Plain25(t.x)
      [] t.t \in {"tup", "tstruct"} -> \A i \in 1..Len(t.xs) : Plain25(t.xs[i])
      [] t.t = "struct" -> \A i \in 1..Len(t.fs) : Plain25(t.fs[i].t)
      [] t.t = "enum" -> \A i \in 1..Len(t.vs) : CASE t.vs[i].k = "unit" -> TRUE [] t.vs[i].k = "new" -> FALSE
                              [] t.vs[i].k = "tup" -> \A j \in 1..Len(t.vs[i].xs) : Plain25(t.vs[i].xs[j])
                              [] OTHER -> \A j \in 1..Len(t.vs[i].fs) : Plain25(t.vs[i].fs[j].t)
      [] OTHER -> TRUE

(***************************************************************************)
(* JSON                                                                    *)
(***************************************************************************)
Join(ss, sep) == FlattenSeq([i \in 1..Len(ss) |-> IF i = 1 THEN ss[i] ELSE sep \o ss[i]])
HexLow(d) == IF d < 10 THEN 48 + d ELSE 87 + d
JsonChar(c) ==
    CASE c = 34 -> <<92, 34>> [] c = 92 -> <<92, 92>> [] c = 8 -> <<92, 98>> [] c = 12 -> <<92, 102>> [] c = 10 -> <<92, 110>>
      [] c = 13 -> <<92, 114>> [] c = 9 -> <<92, 116>>
      [] c < 32 /\ c \notin {8, 9, 10, 12, 13} -> <<92, 117, 48, 48, HexLow(c \div 16), HexLow(c % 16)>>
      [] OTHER -> <<c>>
JsonStr(s) == <<34>> \o FlattenSeq([i \in 1..Len(s) |-> JsonChar(s[i])]) \o <<34>>
RECURSIVE JsonText(_)
JsonText(d) ==
    CASE d.k = "bool" -> IF d.b THEN <<116, 114, 117, 101>> ELSE <<102, 97, 108, 115, 101>>
      [] d.k = "int" -> IntText(IntOfD(d))
      [] d.k = "char" -> JsonStr(<<d.c>>)
      [] d.k = "str" -> JsonStr(d.s)
      [] IsSeq(d) -> <<91>> \o Join([i \in 1..Len(d.xs) |-> JsonText(d.xs[i])], <<44>>) \o <<93>>
      [] d.k = "map" -> <<123>> \o Join([i \in 1..Len(d.es) |-> JsonText(d.es[i].key) \o <<58>> \o JsonText(d.es[i].val)], <<44>>) \o <<125>>
\* what the text says: numbers beyond 64 bits are not integers there
RECURSIVE JsonTree(_)
JsonTree(d) ==
    CASE d.k = "int" -> IF ~d.neg /\ FitsU(d.i, 8) THEN [d EXCEPT !.ty = "u64"]
                        ELSE IF d.neg /\ FitsI(IntOfD(d), 8) THEN [d EXCEPT !.ty = "i64"] ELSE [k |-> "f64"]
      [] d.k = "char" -> DStr(<<d.c>>)
      [] IsSeq(d) -> [k |-> "seq", xs |-> [i \in 1..Len(d.xs) |-> JsonTree(d.xs[i])]]
      [] d.k = "map" -> [k |-> "map", es |-> [i \in 1..Len(d.es) |-> [key |-> d.es[i].key, val |-> JsonTree(d.es[i].val)]]]
      [] OTHER -> d
FromJson(v) == FAValue(JsonTree(SerTree(v)))

(***************************************************************************)
(* Lookups                                                                 *)
(***************************************************************************)
\* the part of a composite that a step addresses: <<>> or <<value>>
StepC(c, s) ==
    IF s.k = "i" THEN (IF FitsInt(s.i) /\ IntOf(s.i) < CLen(c) THEN <<CVal(c, IntOf(s.i) + 1)>> ELSE <<>>)
    ELSE IF c.k = "unnamed" THEN <<>>
    ELSE LET m == {i \in 1..Len(c.fs) : c.fs[i].n = s.s} IN
         IF m = {} THEN <<>> ELSE <<c.fs[CHOOSE i \in m : \A j \in m : i <= j].v>>
StepV(v, s) == IF IsComposite(v) THEN StepC(v, s) ELSE IF v.k = "var" THEN StepC(v.c, s) ELSE <<>>
RECURSIVE AtPath(_, _)
AtPath(v, steps) == IF steps = <<>> THEN <<v>>
    ELSE LET n == StepV(v, steps[1]) IN IF n = <<>> THEN <<>> ELSE AtPath(n[1], Tail(steps))

(***************************************************************************)
(* Accessors                                                               *)
(***************************************************************************)
Nothing == [has |-> FALSE]
Just(x) == [has |-> TRUE, x |-> x]
Scalars(v) ==
    [bool |-> IF v.k = "bool" THEN Just(DBool(v.b)) ELSE Nothing,
     char |-> IF v.k = "char" THEN Just([k |-> "char", c |-> v.c]) ELSE Nothing,
     u128 |-> IF v.k = "u128" THEN Just(DInt("u128", Pos(v.u))) ELSE Nothing,
     i128 |-> IF v.k = "i128" THEN Just(DInt("i128", IntOfV(v))) ELSE Nothing,
     str |-> IF v.k = "str" THEN Just(DStr(v.s)) ELSE Nothing]
=============================================================================
