---------------------------- MODULE DataUniverse ----------------------------
(* The bounded universe of values, data, types and paths in which the laws  *)
(* of conversions and lookups are checked and from which calls are made.    *)
EXTENDS TextUniverse, DataSession

W32(f(_)) == [i \in 1..32 |-> f(i) % 256]
Big256 == {VU256(W32(LAMBDA i : i), 0), VI256(W32(LAMBDA i : 255 - i), 0)}
          \cup UNION {{VU256(w, 0), VI256(w, 0)} : w \in {Zeros(32), W32(LAMBDA i : IF i = 1 THEN 5 ELSE 0), W32(LAMBDA i : 255),
                        W32(LAMBDA i : IF i = 32 THEN 128 ELSE 0), W32(LAMBDA i : IF i < 17 THEN 255 ELSE 0)}}
Flag(b) == VBool(b, 0)
Marks == {VNamed(<<[n |-> Ident, v |-> VUnnamed(<<Flag(TRUE), Flag(FALSE)>>, 0)]>>, 0),
          VNamed(<<[n |-> Ident, v |-> VUnnamed(<<Bg(<<1>>)>>, 0)]>>, 0), VNamed(<<[n |-> Ident, v |-> Bg(<<1>>)]>>, 0),
          VNamed(<<[n |-> <<97>>, v |-> Bg(<<1>>)], [n |-> Ident, v |-> VUnnamed(<<Flag(TRUE)>>, 0)]>>, 0),
          VNamed(<<[n |-> Tail(Ident), v |-> Bg(<<1>>)]>>, 0), VNamed(<<[n |-> SubSeq(Ident, 3, Len(Ident) - 2), v |-> VUnnamed(<<Flag(TRUE)>>, 0)]>>, 0),
          VNamed(<<[n |-> Ident \o <<95>>, v |-> VUnnamed(<<Flag(TRUE)>>, 0)]>>, 0), VNamed(<<[n |-> SubSeq(Ident, 1, Len(Ident) - 1), v |-> Flag(TRUE)]>>, 0),
          VNamed(<<[n |-> [i \in 1..Len(Ident) |-> IF Ident[i] > 96 THEN Ident[i] - 32 ELSE Ident[i]], v |-> Flag(TRUE)]>>, 0),
          VVar(<<65>>, CNamed(<<[n |-> Ident, v |-> VUnnamed(<<Flag(TRUE)>>, 0)]>>), 0)}
VarForms == {VNamed(<<[n |-> NameKey, v |-> n], [n |-> ValuesKey, v |-> c]>>, 0) :
                <<n, c>> \in {VStr(<<65>>, 0), VChar(65, 0), Bg(<<1>>)} \X
                             {VUnnamed(<<>>, 0), VUnnamed(<<Bg(<<1>>)>>, 0), VNamed(<<[n |-> <<97>>, v |-> Flag(TRUE)]>>, 0), Flag(TRUE),
                              VVar(<<66>>, CUnnamed(<<>>), 0), VBits(<<TRUE>>, 0)}}
            \cup {VNamed(<<[n |-> ValuesKey, v |-> VUnnamed(<<>>, 0)], [n |-> NameKey, v |-> VStr(<<65>>, 0)]>>, 0),
                  VNamed(<<[n |-> NameKey, v |-> VStr(<<65>>, 0)]>>, 0), VNamed(<<[n |-> ValuesKey, v |-> VUnnamed(<<>>, 0)]>>, 0),
                  VNamed(<<[n |-> NameKey, v |-> VStr(<<65>>, 0)], [n |-> ValuesKey, v |-> VUnnamed(<<>>, 0)], [n |-> <<97>>, v |-> Flag(TRUE)]>>, 0)}
ByteLists == {VUnnamed([i \in 1..n |-> Bg(NatOf(i))], 0) : n \in {31, 32, 33}} \cup {VUnnamed([i \in 1..32 |-> Bg(NatOf(i * 8))], 0)}
             \cup {VUnnamed([i \in 1..32 |-> Sg(FALSE, NatOf(i))], 0), VNamed([i \in 1..32 |-> [n |-> <<97>>, v |-> Bg(NatOf(i))]], 0)}
Opts == {VVar(n, c, 0) : <<n, c>> \in {SomeName, NoneName} \X
            {CUnnamed(<<>>), CUnnamed(<<Bg(<<5>>)>>), CUnnamed(<<Flag(TRUE), Flag(FALSE)>>), CNamed(<<>>), CNamed(<<[n |-> <<97>>, v |-> Bg(<<5>>)]>>)}}
EdgeIntVals == UNION {{Bg(Below2(k)), Bg(Pow2(k))} : k \in {7, 8, 15, 16, 31, 32, 63, 64, 127}} \cup {Bg(Below2(128))}
               \cup UNION {{Sg(TRUE, Pow2(k)), Sg(FALSE, Below2(k))} \cup (IF k < 127 THEN {Sg(TRUE, Add(Pow2(k), <<1>>)), Sg(FALSE, Pow2(k))} ELSE {}) : k \in {7, 8, 15, 16, 31, 32, 63, 64, 127}}
DataVals(n) == Leaves \cup Shallow \cup Big256 \cup Marks \cup VarForms \cup ByteLists \cup Opts \cup EdgeIntVals
               \cup (IF n > 1 THEN Deep2 ELSE {}) \cup (IF n > 2 THEN Deep3 ELSE {})

(***************************************************************************)
(* Types, their data, and values that fit or nearly fit                    *)
(***************************************************************************)
TInt(ty) == [t |-> ty]
TSeq(x) == [t |-> "seq", x |-> x]
TOpt(x) == [t |-> "opt", x |-> x]
TMap(x) == [t |-> "map", x |-> x]
TTup(xs) == [t |-> "tup", xs |-> xs]
TTStruct(xs) == [t |-> "tstruct", xs |-> xs]
TF(n, t) == [n |-> n, t |-> t]
TStruct(fs) == [t |-> "struct", fs |-> fs]
TNew(x) == [t |-> "nstruct", x |-> x]
TEnum(vs) == [t |-> "enum", vs |-> vs]
NA == <<97>>
NB == <<98>>
NC == <<99>>
U8 == TInt("u8")
I16 == TInt("i16")
TB == [t |-> "bool"]
TE == TEnum(<<[n |-> <<65>>, k |-> "unit"], [n |-> <<66>>, k |-> "tup", xs |-> <<U8, TB>>],
              [n |-> <<67>>, k |-> "struct", fs |-> <<TF(NA, I16), TF(NB, TOpt(TB))>>], [n |-> NoneName, k |-> "tup", xs |-> <<>>],
              [n |-> SomeName, k |-> "tup", xs |-> <<U8>>], [n |-> <<68>>, k |-> "struct", fs |-> <<>>]>>)
Scalar == {TInt(ty) : ty \in UTypes \cup ITypes} \cup {TB, [t |-> "char"], [t |-> "str"], [t |-> "unit"], [t |-> "ustruct"]}
Plain1 == {TSeq(U8), TSeq(TB), TOpt(U8), TOpt(TOpt(U8)), TOpt([t |-> "unit"]), TMap(U8), [t |-> "cmap", x |-> TB],
           TTup(<<>>), TTup(<<U8>>), TTup(<<U8, TB>>), TTStruct(<<>>), TTStruct(<<I16, U8>>),
           TStruct(<<>>), TStruct(<<TF(NA, U8)>>), TStruct(<<TF(NA, U8), TF(NB, TB)>>), TStruct(<<TF(NB, TOpt(U8)), TF(NA, [t |-> "str"])>>),
           TStruct(<<TF(NameKey, [t |-> "str"]), TF(ValuesKey, TSeq(U8))>>), TE}
Plain2 == {TSeq(TE), TOpt(TStruct(<<TF(NA, TE)>>)), TMap(TSeq(TOpt(TB))), TTup(<<TStruct(<<TF(NA, U8), TF(NB, I16)>>), TOpt(TE)>>),
           TStruct(<<TF(NA, TStruct(<<TF(NA, U8), TF(NB, TB)>>)), TF(NB, TTup(<<TB, I16>>))>>), TSeq(TSeq(U8)), TSeq(TTup(<<>>)),
           TEnum(<<[n |-> <<65>>, k |-> "tup", xs |-> <<TE, TMap(TB)>>], [n |-> <<66>>, k |-> "struct", fs |-> <<TF(NA, TSeq(I16)), TF(NC, TOpt(TOpt(TB)))>>]>>)}
Others == {[t |-> k] : k \in Kinds5 \cup {"bits", "any", "bytes", "bytebuf"}} \cup {TSeq([t |-> "value"]), TMap([t |-> "value"]), TOpt([t |-> "value"]), TSeq([t |-> "any"]),
           TNew(U8), TNew(TSeq(U8)), TNew(TNew(TB)), TNew(TStruct(<<TF(NA, U8)>>)), TNew([t |-> "value"]), TNew(TOpt(U8)),
           TEnum(<<[n |-> <<65>>, k |-> "new", x |-> U8], [n |-> <<66>>, k |-> "new", x |-> TTup(<<U8, TB>>)]>>)}
PlainTypes == Scalar \cup Plain1 \cup Plain2
Types == PlainTypes \cup Others

\* some data of every plain type
EdgesOf(ty) == LET k == 8 * Widths[ty] IN
    IF ty \in UTypes THEN {Pos(<<>>), Pos(<<1>>), Pos(Below2(k))}
    ELSE {Pos(<<>>), Pos(Below2(k - 1)), [neg |-> TRUE, mag |-> Pow2(k - 1)], [neg |-> TRUE, mag |-> <<1>>]}
Row(S) == LET s == SetToSeq(S) IN {s[i] : i \in 1..Len(s)}
RECURSIVE DataOf(_, _)
\* at most k of a set
AtMost(S, k) == IF Cardinality(S) <= k THEN S ELSE LET s == SetToSeq(S) IN {s[((i - 1) * Len(s)) \div k + 1] : i \in 1..k}
RECURSIVE DataRow(_, _)
DataRow(ts, k) == IF ts = <<>> THEN {<<>>} ELSE AtMost({<<a>> \o b : <<a, b>> \in DataOf(Head(ts), k) \X DataRow(Tail(ts), k)}, 3 * k)
FieldRows(fs, k) == {[i \in 1..Len(fs) |-> [n |-> fs[i].n, v |-> r[i]]] : r \in DataRow([i \in 1..Len(fs) |-> fs[i].t], k)}
DataOf(t, k) ==
    LET D == CASE t.t \in UTypes \cup ITypes -> {DInt(t.t, x) : x \in EdgesOf(t.t)}
               [] t.t = "bool" -> {DBool(TRUE), DBool(FALSE)}
               [] t.t = "char" -> {[k |-> "char", c |-> 97], [k |-> "char", c |-> 128512]}
               [] t.t = "str" -> {DStr(<<>>), DStr(<<97>>), DStr(<<233, 34>>)}
               [] t.t \in {"unit", "ustruct"} -> {[k |-> t.t]}
               [] t.t = "opt" -> {[k |-> "none"]} \cup {[k |-> "some", x |-> y] : y \in DataOf(t.x, k)}
               [] t.t = "seq" -> {[k |-> "seq", xs |-> s] : s \in {<<>>} \cup DataRow(<<t.x>>, k) \cup DataRow(<<t.x, t.x>>, k)}
               [] t.t \in {"tup", "tstruct"} -> {[k |-> t.t, xs |-> r] : r \in DataRow(t.xs, k)}
               [] t.t \in {"map", "cmap"} ->
                    LET key(s) == IF t.t = "map" THEN DStr(s) ELSE [k |-> "char", c |-> s[1]] IN
                    {[k |-> "map", es |-> <<>>]} \cup {[k |-> "map", es |-> <<[key |-> key(NA), val |-> y]>>] : y \in DataOf(t.x, k)}
                    \cup {[k |-> "map", es |-> <<[key |-> key(NB), val |-> r[1]], [key |-> key(NA), val |-> r[2]]>>] : r \in DataRow(<<t.x, t.x>>, k)}
               [] t.t = "struct" -> {[k |-> "struct", fs |-> r] : r \in FieldRows(t.fs, k)}
               [] t.t = "nstruct" -> {[k |-> "nstruct", x |-> y] : y \in DataOf(t.x, k)}
               [] t.t = "enum" -> UNION {LET w == t.vs[i] IN
                        CASE w.k = "unit" -> {[k |-> "uvar", n |-> w.n]}
                          [] w.k = "new" -> {[k |-> "nvar", n |-> w.n, x |-> y] : y \in DataOf(w.x, k)}
                          [] w.k = "tup" -> {[k |-> "tvar", n |-> w.n, xs |-> r] : r \in DataRow(w.xs, k)}
                          [] w.k = "struct" -> {[k |-> "svar", n |-> w.n, fs |-> r] : r \in FieldRows(w.fs, k)} : i \in 1..Len(t.vs)}
    IN AtMost(D, 4 * k)

\* the values near one: one composite in it with its fields changed
Rotated(s) == IF Len(s) < 2 THEN s ELSE Tail(s) \o <<s[1]>>
NearC(c) ==
    IF c.k = "named"
    THEN {CNamed(fs) : fs \in {Rotated(c.fs), <<[n |-> <<122>>, v |-> Flag(TRUE)]>> \o c.fs, c.fs \o <<[n |-> <<>>, v |-> Bg(<<1>>)]>>}
                              \cup (IF c.fs = <<>> THEN {} ELSE {Tail(c.fs), SubSeq(c.fs, 1, Len(c.fs) - 1), c.fs \o <<c.fs[1]>>})}
         \cup {CUnnamed([i \in 1..Len(c.fs) |-> c.fs[i].v])}
    ELSE {CUnnamed(vs) : vs \in {c.vs \o <<Flag(TRUE)>>, <<Bg(<<1>>)>> \o c.vs} \cup (IF c.vs = <<>> THEN {} ELSE {Tail(c.vs)})}
         \cup {CNamed([i \in 1..Len(c.vs) |-> [n |-> <<96 + (i % 26)>>, v |-> c.vs[i]]])}
RECURSIVE NearVal(_)
\* in a part of it
Inner(c) == UNION {{IF c.k = "named" THEN [c EXCEPT !.fs[i].v = y] ELSE [c EXCEPT !.vs[i] = y] : y \in NearVal(CVal(c, i))} : i \in 1..CLen(c)}
NearVal(v) ==
    IF IsComposite(v) THEN {NodeOfC(c) : c \in NearC(v)} \cup {[c EXCEPT !.ctx = 0] : c \in Inner(v)}
    ELSE IF v.k = "var" THEN {[v EXCEPT !.c = c] : c \in NearC(v.c) \cup Inner(v.c)} \cup {[v EXCEPT !.n = <<90>>], NodeOfC(v.c)}
    ELSE IF v.k = "u128" THEN (IF FitsI(Pos(v.u), 16) THEN {Sg(FALSE, v.u)} ELSE {}) \cup (IF FitsU(Add(v.u, <<1>>), 16) THEN {Bg(Add(v.u, <<1>>))} ELSE {})
    ELSE IF v.k = "i128" THEN (IF v.neg THEN {Bg(v.i)} ELSE {Bg(v.i), Bg(Add(v.i, <<1>>))})
    ELSE IF v.k = "char" THEN {VStr(<<v.c>>, 0)}
    ELSE IF v.k = "str" /\ Len(v.s) = 1 THEN {VChar(v.s[1], 0)} ELSE {}

(***************************************************************************)
(* Data in general                                                         *)
(***************************************************************************)
DLeaf == {DBool(TRUE), DInt("u8", Pos(<<7>>)), DInt("i64", [neg |-> TRUE, mag |-> <<1>>]), DStr(NA), DStr(Ident), [k |-> "char", c |-> 97], [k |-> "none"], [k |-> "unit"],
          [k |-> "ustruct"], [k |-> "uvar", n |-> <<65>>], [k |-> "bytes", w |-> <<1, 2>>], [k |-> "bytes", w |-> W32(LAMBDA i : i)], [k |-> "f64"]}
TreeFew == {DBool(TRUE), DInt("u128", Pos(<<7>>)), DStr(NA), [k |-> "char", c |-> 97], [k |-> "none"], [k |-> "bytes", w |-> <<1>>], [k |-> "unit"]}
DSeqs(S, n) == {[k |-> "seq", xs |-> s] : s \in Seqs(S, 0, n)}
DMaps(K, S, n) == UNION {{[k |-> "map", es |-> [i \in 1..j |-> [key |-> ks[i], val |-> vs[i]]]] : <<ks, vs>> \in [1..j -> K] \X [1..j -> S]} : j \in 0..n}
KeyFew == {DStr(NA), DStr(NameKey), DStr(ValuesKey), DStr(Ident)}
Bools2 == [k |-> "seq", xs |-> <<DBool(TRUE), DBool(FALSE)>>]
Trees(n) ==
    LET one == DSeqs(TreeFew, 2) \cup DMaps({DStr(NA), DStr(Ident), [k |-> "char", c |-> 97], DBool(TRUE), [k |-> "bytes", w |-> NA]}, {DBool(TRUE), Bools2, [k |-> "unit"]}, 1)
               \cup DMaps(KeyFew, {DStr(NA), Bools2} \cup DMaps({DStr(NB)}, {DBool(TRUE)}, 1), 2)
               \cup {[k |-> "some", x |-> y] : y \in DLeaf} \cup {[k |-> "nstruct", x |-> y] : y \in DLeaf \cup {Bools2}} \cup {[k |-> "nvar", n |-> <<65>>, x |-> y] : y \in DLeaf \cup {Bools2}}
               \cup {[k |-> j, xs |-> s] : <<j, s>> \in {"tup", "tstruct"} \X Seqs({DBool(TRUE), DStr(NA)}, 0, 2)}
               \cup {[k |-> "tvar", n |-> <<65>>, xs |-> s] : s \in Seqs({DBool(TRUE), DStr(NA)}, 0, 2)}
               \cup UNION {{[k |-> j, n |-> <<65>>, fs |-> [i \in 1..m |-> [n |-> ns[i], v |-> DBool(TRUE)]]] : <<j, ns>> \in {"struct", "svar"} \X [1..m -> {NA, NameKey, ValuesKey, Ident}]} : m \in 0..2}
               \cup {[k |-> "seq", xs |-> [i \in 1..m |-> DInt(ty, Pos(NatOf(x)))]] : <<m, ty, x>> \in ({31, 32, 33} \X {"u8", "u64", "i16", "i128"} \X {200}) \cup ({32} \X {"u64", "i16", "i128"} \X {256})}
    IN {[k |-> "val", v |-> v] : v \in Few \cup Big256} \cup {[k |-> "fail"], [k |-> "f32"]} \cup DLeaf \cup one
       \cup (IF n > 1 THEN {[k |-> "seq", xs |-> <<y>>] : y \in one} \cup {[k |-> "some", x |-> y] : y \in one}
                           \cup {[k |-> "nvar", n |-> SomeName, x |-> y] : y \in one} \cup {[k |-> "nstruct", x |-> y] : y \in one}
                           \cup {[k |-> "map", es |-> <<[key |-> DStr(NA), val |-> y]>>] : y \in one}
                           \cup {[k |-> "map", es |-> <<[key |-> DStr(NameKey), val |-> DStr(NA)], [key |-> DStr(ValuesKey), val |-> y]>>] : y \in one}
             ELSE {})
\* what a self-describing document can hold
RECURSIVE Plain(_)
Plain(d) == CASE d.k \in {"val", "fail"} -> FALSE
              [] d.k \in {"seq", "tup", "tstruct", "tvar"} -> \A i \in 1..Len(d.xs) : Plain(d.xs[i])
              [] d.k = "map" -> \A i \in 1..Len(d.es) : Plain(d.es[i].key) /\ Plain(d.es[i].val)
              [] d.k \in {"struct", "svar"} -> \A i \in 1..Len(d.fs) : Plain(d.fs[i].v)
              [] d.k \in {"some", "nstruct", "nvar"} -> Plain(d.x)
              [] OTHER -> TRUE

(***************************************************************************)
(* Paths                                                                   *)
(***************************************************************************)
AtI(m, how) == [k |-> "i", i |-> m, how |-> how]
AtS(s, how) == [k |-> "s", s |-> s, how |-> how]
Steps == {AtI(NatOf(i), 0) : i \in 0..3} \cup {AtI(Pow2(32), 1), AtI(Below2(64), 2)} \cup {AtS(s, 0) : s \in {NA, NB, <<65>>, <<48>>, <<>>}}
Paths(n) == Seqs(Steps, 1, n)
Dup == VNamed(<<[n |-> NA, v |-> Bg(<<1>>)], [n |-> NB, v |-> Flag(TRUE)], [n |-> NA, v |-> Bg(<<2>>)]>>, 0)
PathVals == Some3 \cup {Dup, VVar(<<65>>, CNamed(Dup.fs), 0), VUnnamed(<<Dup, VBits(<<TRUE>>, 0)>>, 0), VNamed(<<[n |-> <<>>, v |-> Dup], [n |-> <<48>>, v |-> Flag(FALSE)]>>, 0),
                        VNamed(<<[n |-> <<65>>, v |-> VVar(<<97>>, CUnnamed(<<Dup, Bg(<<9>>)>>), 0)], [n |-> NB, v |-> VUnnamed(<<Bg(<<3>>), Bg(<<4>>), Dup>>, 0)]>>, 0),
                        VStr(NA, 0), Bg(<<1>>), VBits(<<TRUE, FALSE>>, 0), VU256(W32(LAMBDA i : i), 0)}
=============================================================================
