-------------------------------- MODULE Scale --------------------------------
(***************************************************************************)
(* Type registries, SCALE decoding (with the tracing decoder's error        *)
(* report) and SCALE encoding.                                             *)
(*                                                                         *)
(* A registry is a sequence of type definitions; the type id n is entry    *)
(* n + 1.  A definition is a record with field t:                          *)
(*   prim p | compact i | seq i | arr n,i | tup is | comp fs | var vs      *)
(*   | bits st,or                                                          *)
(* fs: sequence of [h, n, i] (h: has a name), vs: sequence of [n, x, fs].  *)
(***************************************************************************)
EXTENDS Values

UWidth(p) == CASE p = "u8" -> 1 [] p = "u16" -> 2 [] p = "u32" -> 4 [] p = "u64" -> 8 [] p = "u128" -> 16 [] OTHER -> 0
IWidth(p) == CASE p = "i8" -> 1 [] p = "i16" -> 2 [] p = "i32" -> 4 [] p = "i64" -> 8 [] p = "i128" -> 16 [] OTHER -> 0
BWidth(st) == CASE st = "u8" -> 8 [] st = "u16" -> 16 [] st = "u32" -> 32 [] st = "u64" -> 64

NoType == [t |-> "none"]
Ty(reg, id) == IF id >= 0 /\ id < Len(reg) THEN reg[id + 1] ELSE NoType

\* tuples and composites alike as a sequence of fields
UField(i) == [h |-> FALSE, n |-> <<>>, i |-> i]
FieldsOf(d) == IF d.t = "tup" THEN [j \in 1..Len(d.is) |-> UField(d.is[j])] ELSE d.fs
AllNamed(fs) == Len(fs) > 0 /\ \A j \in 1..Len(fs) : fs[j].h
AnyNamed(fs) == \E j \in 1..Len(fs) : fs[j].h

(***************************************************************************)
(* Bit sequences.                                                          *)
(***************************************************************************)
BitWords(n, w) == (n + w - 1) \div w
\* index (0-based, within its word) of the bit at position p (0 = least significant) of a w-bit word
BitIndex(p, w, or) == IF or = "lsb" THEN p ELSE w - 1 - p
EncBitsTo(bits, st, or) ==
    LET w == BWidth(st)
        n == Len(bits)
        bit(i) == IF i < n /\ bits[i + 1] THEN 1 ELSE 0
        byteAt(k) == LET word == k \div (w \div 8)
                         j == k % (w \div 8)
                         b(q) == bit(word * w + BitIndex(8 * j + q, w, or)) * (2 ^ q)
                     IN b(0) + b(1) + b(2) + b(3) + b(4) + b(5) + b(6) + b(7)
    IN EncCompact(NatOf(n)) \o [k \in 1..(BitWords(n, w) * (w \div 8)) |-> byteAt(k - 1)]

\* [ok, bits, p]
DecBits(b, pos, st, or) ==
    LET w == BWidth(st)
        c == DecCompact(b, pos, 4)
    IN IF ~c.ok \/ ~FitsInt(c.m) THEN [ok |-> FALSE]
       ELSE LET n == IntOf(c.m)
                start == pos + c.n
            IN IF n \div 8 > Len(b) THEN [ok |-> FALSE]
               ELSE LET len == BitWords(n, w) * (w \div 8) IN
               IF start + len - 1 > Len(b) THEN [ok |-> FALSE]
               ELSE [ok |-> TRUE, p |-> start + len,
                     bits |-> [i \in 1..n |->
                        LET word == (i - 1) \div w
                            p == BitIndex((i - 1) % w, w, or)
                            byte == b[start + word * (w \div 8) + p \div 8]
                        IN (byte \div (2 ^ (p % 8))) % 2 = 1]]

(***************************************************************************)
(* Decoding.  The result is [ok |-> TRUE, v, p] with p the next position,  *)
(* or the failure report of the tracing decoder: [ok |-> FALSE, top] where *)
(* top = TRUE means the failing item is the one being decoded itself, and  *)
(* top = FALSE comes with the path `at` from here to the failing item and  *)
(* the partial value `part`.                                               *)
(***************************************************************************)
Fail == [ok |-> FALSE, top |-> TRUE]
SegIdx(i) == [seg |-> "idx", i |-> i]
SegField(n) == [seg |-> "field", n |-> n]
SegVar(n) == [seg |-> "variant", n |-> n]

DecPrim(p, id, b, pos, compact) ==
    LET have(n) == pos + n - 1 <= Len(b)
        bytes(n) == SubSeq(b, pos, pos + n - 1)
        good(v, n) == [ok |-> TRUE, v |-> v, p |-> pos + n]
    IN IF UWidth(p) > 0 THEN
            IF compact
            THEN LET c == DecCompact(b, pos, UWidth(p)) IN IF c.ok THEN good(VU(c.m, id), c.n) ELSE Fail
            ELSE IF have(UWidth(p)) THEN good(VU(DecU(bytes(UWidth(p))), id), UWidth(p)) ELSE Fail
       ELSE IF compact THEN Fail
       ELSE IF IWidth(p) > 0 THEN
            IF have(IWidth(p)) THEN good(VI(DecI(bytes(IWidth(p))), id), IWidth(p)) ELSE Fail
       ELSE CASE p = "bool" -> IF have(1) /\ b[pos] < 2 THEN good(VBool(b[pos] = 1, id), 1) ELSE Fail
              [] p = "char" -> IF have(4) THEN LET m == DecU(bytes(4)) IN
                                    IF FitsInt(m) /\ IsScalar(IntOf(m)) THEN good(VChar(IntOf(m), id), 4) ELSE Fail
                               ELSE Fail
              [] p = "str" -> LET c == DecCompact(b, pos, 4) IN
                              IF ~c.ok \/ ~FitsInt(c.m) THEN Fail
                              ELSE LET n == IntOf(c.m) s == pos + c.n IN
                                   IF n > Len(b) - s + 1 THEN Fail
                                   ELSE LET u == Utf8Dec(SubSeq(b, s, s + n - 1)) IN
                                        IF u.ok THEN [ok |-> TRUE, v |-> VStr(u.s, id), p |-> s + n] ELSE Fail
              \* the decoder takes a 256-bit integer only as the last thing in the input
              [] p = "u256" -> IF Len(b) - pos + 1 = 32 THEN good(VU256(bytes(32), id), 32) ELSE Fail
              [] p = "i256" -> IF Len(b) - pos + 1 = 32 THEN good(VI256(bytes(32), id), 32) ELSE Fail

RECURSIVE DecAt(_, _, _, _, _), DecItems(_, _, _, _, _, _), DecFields(_, _, _, _, _, _)

\* n more items of type i; acc: values so far
DecItems(reg, i, n, b, pos, acc) ==
    IF n = 0 THEN [ok |-> TRUE, vs |-> acc, p |-> pos]
    ELSE LET r == DecAt(reg, i, b, pos, FALSE) IN
         IF r.ok THEN DecItems(reg, i, n - 1, b, r.p, Append(acc, r.v))
         ELSE [ok |-> FALSE, top |-> FALSE,
               at |-> <<SegIdx(Len(acc))>> \o (IF r.top THEN <<>> ELSE r.at),
               part |-> CUnnamed(IF r.top THEN acc ELSE Append(acc, r.part))]

\* fields fs from the (Len(acc) + 1)st on; acc: values so far.  Result as DecItems but c a composite.
DecFields(reg, fs, b, pos, acc, compact) ==
    LET named == AllNamed(fs)
        k == Len(acc) + 1
        mk(vs) == IF named THEN CNamed([j \in 1..Len(vs) |-> [n |-> fs[j].n, v |-> vs[j]]]) ELSE CUnnamed(vs)
    IN IF k > Len(fs) THEN [ok |-> TRUE, c |-> mk(acc), p |-> pos]
       ELSE LET r == DecAt(reg, fs[k].i, b, pos, compact) IN
            IF r.ok THEN DecFields(reg, fs, b, r.p, Append(acc, r.v), compact)
            ELSE [ok |-> FALSE, top |-> FALSE,
                  at |-> <<IF named THEN SegField(fs[k].n) ELSE SegIdx(k - 1)>> \o (IF r.top THEN <<>> ELSE r.at),
                  part |-> mk(IF r.top THEN acc ELSE Append(acc, r.part))]

WithKind(c, x) == IF c.k = "named" THEN VNamed(c.fs, x) ELSE VUnnamed(c.vs, x)

DecAt(reg, id, b, pos, compact) ==
    LET d == Ty(reg, id) IN
    CASE d.t = "none" -> Fail
      [] d.t = "prim" -> DecPrim(d.p, id, b, pos, compact)
      [] d.t = "compact" -> DecAt(reg, d.i, b, pos, TRUE)
      [] d.t = "bits" -> IF compact THEN Fail ELSE
            LET r == DecBits(b, pos, d.st, d.or) IN
            IF r.ok THEN [ok |-> TRUE, v |-> VBits(r.bits, id), p |-> r.p] ELSE Fail
      [] d.t = "seq" -> IF compact THEN Fail ELSE
            LET c == DecCompact(b, pos, 8) IN
            IF ~c.ok THEN Fail
            \* the tracing decoder refuses more entries than this (which makes a difference to where it says it failed)
            ELSE IF ~FitsInt(c.m) \/ IntOf(c.m) > 100000000 THEN Fail
            ELSE LET n == IntOf(c.m)
                     r == DecItems(reg, d.i, n, b, pos + c.n, <<>>) IN
                 IF r.ok THEN [ok |-> TRUE, v |-> VUnnamed(r.vs, id), p |-> r.p]
                 ELSE [r EXCEPT !.part = WithKind(r.part, id)]
      [] d.t = "arr" -> IF compact THEN Fail ELSE
            LET r == DecItems(reg, d.i, d.n, b, pos, <<>>) IN
            IF r.ok THEN [ok |-> TRUE, v |-> VUnnamed(r.vs, id), p |-> r.p]
            ELSE [r EXCEPT !.part = WithKind(r.part, id)]
      [] d.t \in {"tup", "comp"} ->
            LET fs == FieldsOf(d) IN
            IF compact /\ Len(fs) # 1 THEN Fail
            ELSE LET r == DecFields(reg, fs, b, pos, <<>>, compact) IN
                 IF r.ok THEN [ok |-> TRUE, v |-> WithKind(r.c, id), p |-> r.p]
                 ELSE [r EXCEPT !.part = WithKind(r.part, id)]
      [] d.t = "var" -> IF compact \/ pos > Len(b) THEN Fail ELSE
            LET hits == SelectSeq(d.vs, LAMBDA w : w.x = b[pos]) IN
            IF hits = <<>> THEN Fail
            ELSE LET r == DecFields(reg, hits[1].fs, b, pos + 1, <<>>, FALSE) IN
                 IF r.ok THEN [ok |-> TRUE, v |-> VVar(hits[1].n, r.c, id), p |-> r.p]
                 ELSE [r EXCEPT !.at = <<SegVar(hits[1].n)>> \o r.at,
                                !.part = VVar(hits[1].n, r.part, id)]

Dec(reg, id, b) == DecAt(reg, id, b, 1, FALSE)
\* field lists
DecFieldList(reg, fs, b) == DecFields(reg, fs, b, 1, <<>>, FALSE)

(***************************************************************************)
(* Exact encoding: defined when the value has the very structure decoding  *)
(* gives; this is the SCALE encoding of the value.                         *)
(***************************************************************************)
Bad == [ok |-> FALSE]
Good(b) == [ok |-> TRUE, b |-> b]
CatAll(rs) == IF \A i \in 1..Len(rs) : rs[i].ok THEN Good(FlattenSeq([i \in 1..Len(rs) |-> rs[i].b])) ELSE Bad

RECURSIVE Exact(_, _, _, _)
ExactFields(reg, fs, c, compact) ==
    IF CLen(c) # Len(fs) \/ (c.k = "named") # AllNamed(fs) THEN Bad
    ELSE IF c.k = "named" /\ (\E j \in 1..Len(fs) : c.fs[j].n # fs[j].n) THEN Bad
    ELSE CatAll([j \in 1..Len(fs) |-> Exact(reg, fs[j].i, CVal(c, j), compact)])

ExactPrim(p, v, compact) ==
    IF UWidth(p) > 0 THEN
        IF v.k = "u128" /\ FitsU(v.u, UWidth(p)) THEN Good(IF compact THEN EncCompact(v.u) ELSE EncU(v.u, UWidth(p))) ELSE Bad
    ELSE IF compact THEN Bad
    ELSE IF IWidth(p) > 0 THEN
        IF v.k = "i128" /\ FitsI(IntOfV(v), IWidth(p)) THEN Good(EncI(IntOfV(v), IWidth(p))) ELSE Bad
    ELSE CASE p = "bool" -> IF v.k = "bool" THEN Good(<<IF v.b THEN 1 ELSE 0>>) ELSE Bad
           [] p = "str" -> IF v.k = "str" THEN LET u == Utf8Enc(v.s) IN Good(EncCompact(NatOf(Len(u))) \o u) ELSE Bad
           [] OTHER -> Bad          \* chars and 256-bit integers have no encoding

Exact(reg, id, v, compact) ==
    LET d == Ty(reg, id) IN
    CASE d.t = "none" -> Bad
      [] d.t = "prim" -> ExactPrim(d.p, v, compact)
      [] d.t = "compact" -> IF compact THEN Bad ELSE Exact(reg, d.i, v, TRUE)
      [] d.t = "bits" -> IF v.k = "bits" /\ ~compact THEN Good(EncBitsTo(v.bits, d.st, d.or)) ELSE Bad
      [] d.t = "seq" -> IF v.k # "unnamed" \/ compact THEN Bad ELSE
            LET r == CatAll([j \in 1..Len(v.vs) |-> Exact(reg, d.i, v.vs[j], FALSE)]) IN
            IF r.ok THEN Good(EncCompact(NatOf(Len(v.vs))) \o r.b) ELSE Bad
      [] d.t = "arr" -> IF v.k # "unnamed" \/ compact THEN Bad
                        ELSE IF Len(v.vs) # d.n THEN Bad
                        ELSE CatAll([j \in 1..Len(v.vs) |-> Exact(reg, d.i, v.vs[j], FALSE)])
      [] d.t \in {"tup", "comp"} ->
            LET fs == FieldsOf(d) IN
            IF ~IsComposite(v) \/ (compact /\ Len(fs) # 1) THEN Bad ELSE ExactFields(reg, fs, v, compact)
      [] d.t = "var" -> IF v.k # "var" \/ compact THEN Bad ELSE
            LET hits == SelectSeq(d.vs, LAMBDA w : w.n = v.n) IN
            IF hits = <<>> THEN Bad
            ELSE LET r == ExactFields(reg, hits[1].fs, v.c, FALSE) IN
                 IF r.ok THEN Good(<<hits[1].x>> \o r.b) ELSE Bad
ExactEnc(reg, id, v) == Exact(reg, id, v, FALSE)

\* what a compact can be of
RECURSIVE CanCompact(_, _)
CanCompact(reg, id) == LET d == Ty(reg, id) IN
    CASE d.t = "prim" -> UWidth(d.p) > 0
      [] d.t = "tup" -> Len(d.is) = 1 /\ CanCompact(reg, d.is[1])
      [] d.t = "comp" -> Len(d.fs) = 1 /\ CanCompact(reg, d.fs[1].i)
      [] OTHER -> FALSE
\* types for which a decoded value determines its bytes and can be encoded again
RECURSIVE ReachFrom(_, _, _)
Succs(d) == CASE d.t \in {"compact", "seq", "arr"} -> {d.i}
              [] d.t = "tup" -> {d.is[j] : j \in 1..Len(d.is)}
              [] d.t = "comp" -> {d.fs[j].i : j \in 1..Len(d.fs)}
              [] d.t = "var" -> UNION {{d.vs[k].fs[j].i : j \in 1..Len(d.vs[k].fs)} : k \in 1..Len(d.vs)}
              [] OTHER -> {}
ReachFrom(reg, todo, seen) ==
    IF todo \subseteq seen THEN seen
    ELSE LET new == todo \ seen IN ReachFrom(reg, UNION {Succs(Ty(reg, i)) : i \in new}, seen \cup new)
Reach(reg, id) == ReachFrom(reg, {id}, {})
DistinctNames(fs) == \A i, j \in 1..Len(fs) : i # j /\ fs[i].h /\ fs[j].h => fs[i].n # fs[j].n
PlainType(reg, id) ==
    \A i \in Reach(reg, id) : LET d == Ty(reg, i) IN
        /\ d.t = "prim" => d.p \notin {"char", "u256", "i256"}
        /\ d.t = "compact" => CanCompact(reg, d.i)
        /\ d.t = "comp" => DistinctNames(d.fs)
        /\ d.t = "var" => /\ \A j, k \in 1..Len(d.vs) : j # k => d.vs[j].n # d.vs[k].n /\ d.vs[j].x # d.vs[k].x
                          /\ \A k \in 1..Len(d.vs) : DistinctNames(d.vs[k].fs)

(***************************************************************************)
(* Lenient encoding, as the library does it.                               *)
(***************************************************************************)
\* through single-field composites and tuples (any name); arrays of one too if arr
RECURSIVE Skip1(_, _, _)
Skip1(reg, id, arr) ==
    LET d == Ty(reg, id) IN
    IF d.t = "tup" /\ Len(d.is) = 1 THEN Skip1(reg, d.is[1], arr)
    ELSE IF d.t = "comp" /\ Len(d.fs) = 1 THEN Skip1(reg, d.fs[1].i, arr)
    ELSE IF arr /\ d.t = "arr" /\ d.n = 1 THEN Skip1(reg, d.i, arr)
    ELSE id
\* through single unnamed fields only
RECURSIVE SkipU(_, _)
SkipU(reg, id) ==
    LET d == Ty(reg, id) IN
    IF d.t = "tup" /\ Len(d.is) = 1 THEN SkipU(reg, d.is[1])
    ELSE IF d.t = "comp" /\ Len(d.fs) = 1 /\ ~d.fs[1].h THEN SkipU(reg, d.fs[1].i)
    ELSE id

\* integer x (a [neg, mag]) into a number type
EncNumTo(x, p, compact) ==
    IF UWidth(p) > 0 THEN
        IF ~x.neg /\ FitsU(x.mag, UWidth(p)) THEN Good(IF compact THEN EncCompact(x.mag) ELSE EncU(x.mag, UWidth(p))) ELSE Bad
    ELSE IF IWidth(p) > 0 /\ ~compact THEN
        IF FitsI(x, IWidth(p)) THEN Good(EncI(x, IWidth(p))) ELSE Bad
    ELSE Bad
EncNum(reg, id, x) ==
    LET s == Skip1(reg, id, FALSE) d == Ty(reg, s) IN
    IF d.t = "prim" THEN EncNumTo(x, d.p, FALSE)
    ELSE IF d.t = "compact" THEN
        LET e == Ty(reg, Skip1(reg, d.i, FALSE)) IN IF e.t = "prim" THEN EncNumTo(x, e.p, TRUE) ELSE Bad
    ELSE Bad

RECURSIVE Enc(_, _, _), EncComp(_, _, _), EncAsIs(_, _, _), EncHelper(_, _, _), EncEach(_, _, _)
\* values vs against types is, one after another, no further than the first that fails
EncEach(reg, is, vs) ==
    FoldLeft(LAMBDA acc, j : IF ~acc.ok THEN Bad
                             ELSE LET r == Enc(reg, is[j], vs[j]) IN IF r.ok THEN Good(acc.b \o r.b) ELSE Bad,
             Good(<<>>), [j \in 1..Len(vs) |-> j])
U8Node(x) == VU(NatOf(x), 0)
EncPrim(reg, id, v) ==
    LET d == Ty(reg, Skip1(reg, id, FALSE)) IN
    CASE v.k = "bool" -> IF d.t = "prim" /\ d.p = "bool" THEN Good(<<IF v.b THEN 1 ELSE 0>>) ELSE Bad
      [] v.k = "str" -> IF d.t = "prim" /\ d.p = "str" THEN LET u == Utf8Enc(v.s) IN Good(EncCompact(NatOf(Len(u))) \o u) ELSE Bad
      [] v.k = "char" -> EncNum(reg, id, [neg |-> FALSE, mag |-> NatOf(v.c)])
      [] v.k = "u128" -> EncNum(reg, id, [neg |-> FALSE, mag |-> v.u])
      [] v.k = "i128" -> EncNum(reg, id, IntOfV(v))
      \* as an array of 32 bytes
      [] v.k \in {"u256", "i256"} ->
            LET e == Ty(reg, id)
                each(i) == CatAll([j \in 1..32 |-> EncNum(reg, i, [neg |-> FALSE, mag |-> NatOf(v.w[j])])])
            IN CASE e.t = "arr" -> IF e.n = 32 THEN each(e.i) ELSE Bad
                 [] e.t = "seq" -> LET r == each(e.i) IN IF r.ok THEN Good(EncCompact(NatOf(32)) \o r.b) ELSE Bad
                 [] e.t = "tup" /\ Len(e.is) = 1 -> Enc(reg, e.is[1], v)
                 [] e.t = "comp" /\ Len(e.fs) = 1 -> Enc(reg, e.fs[1].i, v)
                 [] OTHER -> Bad

BitOf(v) == IF v.k = "bool" THEN <<v.b>>
            ELSE IF v.k = "u128" /\ Len(v.u) = 0 THEN <<FALSE>>
            ELSE IF v.k = "u128" /\ v.u = <<1>> THEN <<TRUE>>
            ELSE IF v.k = "i128" /\ v.i = <<>> THEN <<FALSE>>
            ELSE IF v.k = "i128" /\ ~v.neg /\ v.i = <<1>> THEN <<TRUE>>
            ELSE <<>>
EncValsAsBits(vs, d) ==
    IF \E j \in 1..Len(vs) : BitOf(vs[j]) = <<>> THEN Bad
    ELSE Good(EncBitsTo([j \in 1..Len(vs) |-> BitOf(vs[j])[1]], d.st, d.or))

\* a list of fields against a composite: by name if both name theirs, else by position
EncFieldList(reg, fs, c) ==
    IF AnyNamed(fs) /\ c.k = "named" /\ Len(c.fs) > 0 THEN
        LET hits(n) == SelectSeq(c.fs, LAMBDA f : f.n = n) IN
        IF \E j \in 1..Len(fs) : hits(fs[j].n) = <<>> THEN Bad
        ELSE EncEach(reg, [j \in 1..Len(fs) |-> fs[j].i], [j \in 1..Len(fs) |-> Last(hits(fs[j].n)).v])
    ELSE IF Len(fs) # CLen(c) THEN Bad
    ELSE EncEach(reg, [j \in 1..Len(fs) |-> fs[j].i], CVals(c))

\* what scale_encode's Composite helper does
EncHelper(reg, id, c) ==
    LET s == SkipU(reg, id) d == Ty(reg, s)
        named == c.k = "named" /\ Len(c.fs) > 0
    IN CASE d.t = "comp" -> IF ~named /\ CLen(c) = 1 THEN Enc(reg, s, CVal(c, 1)) ELSE EncFieldList(reg, d.fs, c)
         [] d.t = "tup" -> IF CLen(c) = 1 THEN Enc(reg, s, CVal(c, 1)) ELSE EncFieldList(reg, FieldsOf(d), c)
         [] d.t = "none" -> Bad
         [] OTHER -> IF CLen(c) = 1 THEN Enc(reg, s, CVal(c, 1)) ELSE Bad

EncAsIs(reg, id, c) ==
    LET d == Ty(reg, id)
        one == c.k = "unnamed" /\ Len(c.vs) = 1
        items(i) == EncEach(reg, [j \in 1..CLen(c) |-> i], CVals(c))
    IN CASE d.t \in {"comp", "tup"} ->
                LET fs == FieldsOf(d) IN
                IF one /\ Len(fs) = 1 /\ ~fs[1].h THEN Enc(reg, fs[1].i, c.vs[1]) ELSE EncHelper(reg, id, c)
         [] d.t = "seq" -> LET r == items(d.i) IN IF r.ok THEN Good(EncCompact(NatOf(CLen(c))) \o r.b) ELSE Bad
         [] d.t = "arr" -> IF CLen(c) # d.n THEN Bad ELSE items(d.i)
         [] d.t = "bits" -> EncValsAsBits(CVals(c), d)
         [] OTHER -> IF CLen(c) = 1 THEN Enc(reg, id, CVal(c, 1)) ELSE Bad

\* a list of one tried as is against id was there tried without its outer layer, too
Peeled(reg, id, c) ==
    LET d == Ty(reg, id) IN
    CASE d.t \in {"seq", "arr", "bits"} -> FALSE
      [] d.t = "tup" -> Len(d.is) # 1
      [] d.t = "comp" -> Len(d.fs) # 1 /\ c.k = "unnamed"
      [] OTHER -> TRUE

EncComp(reg, id, c) ==
    LET r1 == EncAsIs(reg, id, c) IN
    IF r1.ok THEN r1
    ELSE LET s == Skip1(reg, id, TRUE)
             r2 == IF s # id THEN EncAsIs(reg, s, c) ELSE Bad
         IN IF r2.ok THEN r2
            ELSE IF CLen(c) = 1 /\ ~Peeled(reg, s, c) THEN Enc(reg, s, CVal(c, 1)) ELSE Bad

Enc(reg, id, v) ==
    CASE IsComposite(v) -> EncComp(reg, id, v)
      [] v.k = "var" ->
            LET d == Ty(reg, Skip1(reg, id, FALSE)) IN
            IF d.t # "var" THEN Bad
            ELSE LET hits == SelectSeq(d.vs, LAMBDA w : w.n = v.n) IN
                 IF hits = <<>> THEN Bad
                 ELSE LET r == EncFieldList(reg, hits[1].fs, v.c) IN
                      IF r.ok THEN Good(<<hits[1].x>> \o r.b) ELSE Bad
      [] v.k = "bits" ->
            LET d == Ty(reg, Skip1(reg, id, FALSE)) IN
            IF d.t = "bits" THEN Good(EncBitsTo(v.bits, d.st, d.or)) ELSE Bad
      [] OTHER -> EncPrim(reg, id, v)
=============================================================================
