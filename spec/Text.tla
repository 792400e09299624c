-------------------------------- MODULE Text --------------------------------
(***************************************************************************)
(* The textual form of values: the printer with its styles, context        *)
(* printing and custom formatters, and the parser with its error reports   *)
(* and custom parsers.  Text is a sequence of code points.                 *)
(***************************************************************************)
EXTENDS Values, Ss58

TRUE_ == <<116, 114, 117, 101>>
FALSE_ == <<102, 97, 108, 115, 101>>
Starts(s, i, p) == i + Len(p) - 1 <= Len(s) /\ SubSeq(s, i, i + Len(p) - 1) = p

IsIdent(n) == n # <<>> /\ IsAlpha(n[1]) /\ \A i \in 2..Len(n) : IsIdentChar(n[i])
LooksLikeBool(n) == Starts(n, 1, TRUE_) \/ Starts(n, 1, FALSE_)

(***************************************************************************)
(* Printing.  o: [mode, by, lead, use, bad, fmts] - mode is "normal",      *)
(* "compact" or "pretty"; by one step of indentation and lead the leading  *)
(* indent; use: print contexts, failing at context bad; fmts the custom    *)
(* formatters.  The result a is [ok, s, log]: the text written (up to the  *)
(* failure if not ok) and every call of a formatter (its number, the       *)
(* context of the value) or of the context printer (number 0).             *)
(***************************************************************************)
Rep(t, n) == FlattenSeq([i \in 1..n |-> t])
Break(o, n) == <<10>> \o o.lead \o Rep(o.by, n)
SpaceT(o) == IF o.mode = "compact" THEN <<>> ELSE <<32>>
NewlineT(o, n) == IF o.mode = "pretty" THEN Break(o, n) ELSE <<>>
SepT(o, n) == IF o.mode = "pretty" THEN Break(o, n) ELSE SpaceT(o)

Put(a, t) == IF a.ok THEN [a EXCEPT !.s = @ \o t] ELSE a
FailP(a) == [a EXCEPT !.ok = FALSE]
Escaped(s) == FlattenSeq([i \in 1..Len(s) |-> IF EscapeOf(s[i]) = 0 THEN <<s[i]>> ELSE <<92, EscapeOf(s[i])>>])
Quoted(s) == <<34>> \o Escaped(s) \o <<34>>
FieldNameT(n) == IF IsIdent(n) THEN n ELSE Quoted(n)
VariantNameT(n) == IF IsIdent(n) /\ ~LooksLikeBool(n) THEN n ELSE <<118>> \o Quoted(n)

\* the hex formatter
HexDigit(d) == IF d < 10 THEN 48 + d ELSE 55 + d
IsHexable(v) == v.k = "unnamed" /\ v.vs # <<>> /\ \A i \in 1..Len(v.vs) : v.vs[i].k = "u128" /\ Len(v.vs[i].u) <= 1
HexText(v) == <<48, 120>> \o FlattenSeq([i \in 1..Len(v.vs) |-> LET b == IntOf(v.vs[i].u) IN <<HexDigit(b \div 16), HexDigit(b % 16)>>])

\* a synthetic formatter accepts values of kind f.on ("any": all, "ctx": those with context f.x), writes f.out and ends with f.res
Accepts(f, v) == IF f.kind = "hex" THEN IsHexable(v)
                 ELSE f.on = "any" \/ f.on = v.k \/ (f.on = "ctx" /\ f.x = v.ctx)
FormatterText(f, v) == IF f.kind = "hex" THEN HexText(v) ELSE f.out
FormatterOk(f) == f.kind = "hex" \/ f.res = "ok"
AddLog(a, q, v) == [a EXCEPT !.log = Append(@, <<q, v.ctx>>)]

RECURSIVE Formatters(_, _, _, _)
Formatters(v, o, q, a) ==          \* [took, a]
    IF q > Len(o.fmts) THEN [took |-> FALSE, a |-> a]
    ELSE LET f == o.fmts[q]
             a1 == AddLog(a, q, v)
         IN IF Accepts(f, v)
            THEN [took |-> TRUE, a |-> LET a2 == Put(a1, FormatterText(f, v)) IN IF FormatterOk(f) THEN a2 ELSE FailP(a2)]
            ELSE Formatters(v, o, q + 1, a1)

RECURSIVE PutV(_, _, _, _)
RECURSIVE PutItems(_, _, _, _, _)
PutItems(c, j, o, n, a) ==
    IF j > CLen(c) \/ ~a.ok THEN a
    ELSE LET a1 == IF j > 1 THEN Put(a, <<44>> \o SepT(o, n)) ELSE a
             a2 == IF c.k = "named" THEN Put(a1, FieldNameT(c.fs[j].n) \o <<58>> \o SpaceT(o)) ELSE a1
         IN PutItems(c, j + 1, o, n, PutV(CVal(c, j), o, n, a2))
PutC(c, o, n, a) ==
    IF c.k = "named"
    THEN IF c.fs = <<>> THEN Put(a, <<123, 125>>)
         ELSE Put(PutItems(c, 1, o, n + 1, Put(a, <<123>> \o SepT(o, n + 1))), SepT(o, n) \o <<125>>)
    ELSE IF c.vs = <<>> THEN Put(a, <<40, 41>>)
         ELSE Put(PutItems(c, 1, o, n + 1, Put(a, <<40>> \o NewlineT(o, n + 1))), NewlineT(o, n) \o <<41>>)
\* everything but the context and the custom formatters of the value itself
PutDef(v, o, n, a) ==
    CASE v.k = "bool" -> Put(a, IF v.b THEN TRUE_ ELSE FALSE_)
      [] v.k = "char" -> Put(a, <<39>> \o Escaped(<<v.c>>) \o <<39>>)
      [] v.k = "str" -> Put(a, Quoted(v.s))
      [] v.k = "u128" -> Put(a, DecText(v.u))
      [] v.k = "i128" -> Put(a, IntText(IntOfV(v)))
      [] v.k \in {"u256", "i256"} -> FailP(a)
      [] v.k = "bits" -> Put(a, <<60>> \o [i \in 1..Len(v.bits) |-> IF v.bits[i] THEN 49 ELSE 48] \o <<62>>)
      [] v.k = "var" -> PutC(v.c, o, n, Put(a, VariantNameT(v.n) \o SpaceT(o)))
      [] IsComposite(v) -> PutC(v, o, n, a)
PutV(v, o, n, a) ==
    IF ~a.ok THEN a
    ELSE LET a1 == IF ~o.use THEN a
                   ELSE LET b == AddLog(Put(a, <<60>>), 0, v) IN
                        IF v.ctx = o.bad THEN FailP(b) ELSE Put(b, DecText(NatOf(v.ctx)) \o <<62, 32>>)
         IN IF ~a1.ok THEN a1
            ELSE LET r == Formatters(v, o, 1, a1) IN
                 IF r.took THEN r.a ELSE PutDef(v, o, n, r.a)

Blank == [ok |-> TRUE, s |-> <<>>, log |-> <<>>]
PrintWith(v, o) == PutV(v, o, 0, Blank)
Plainly(mode) == [mode |-> mode, by |-> <<32, 32>>, lead |-> <<>>, use |-> FALSE, bad |-> -1, fmts |-> <<>>]
PrintAs(v, mode) == PrintWith(v, Plainly(mode))
IsPlain(o) == ~o.use /\ o.fmts = <<>>

\* the text without the whitespace that is outside of string and char literals
RECURSIVE Squash(_, _, _)
Squash(s, i, q) ==       \* q: 0 outside, or the quote that closes the literal
    IF i > Len(s) THEN <<>>
    ELSE LET c == s[i] IN
         IF q # 0 THEN IF c = 92 /\ i < Len(s) THEN <<c, s[i + 1]>> \o Squash(s, i + 2, q)
                       ELSE <<c>> \o Squash(s, i + 1, IF c = q THEN 0 ELSE q)
         ELSE IF IsSpace(c) THEN Squash(s, i + 1, 0)
         ELSE <<c>> \o Squash(s, i + 1, IF c \in {34, 39} THEN c ELSE 0)

(***************************************************************************)
(* Parsing.  e: [s, off, ps] - the text, the byte offset of every          *)
(* character (and of the end), the custom parsers.  Parse functions take   *)
(* the position i of a character and yield [k |-> "ok", .., i],            *)
(* [k |-> "none"] (something else may be tried) or [k |-> "err", e], with  *)
(* e the error [kind, a, s, h, t]: kind, its arguments, start offset,      *)
(* whether it has an end, end offset.  log: calls of custom parsers, as    *)
(* (number, bytes remaining).                                              *)
(***************************************************************************)
Offsets(s) == LET RECURSIVE O(_, _) O(i, x) == IF i > Len(s) THEN <<x>> ELSE <<x>> \o O(i + 1, x + CharWidth(s[i])) IN O(1, 0)
\* the same without deep recursion
OffsetsFold(s) == FoldLeft(LAMBDA acc, c : Append(acc, acc[Len(acc)] + CharWidth(c)), <<0>>, s)
Env(s, ps) == [s |-> s, off |-> OffsetsFold(s), ps |-> ps]

None == [k |-> "none"]
ErrBetween(kind, a, x, y) == [kind |-> kind, a |-> a, s |-> x, h |-> TRUE, t |-> y]
ErrOne(kind, a, x) == ErrBetween(kind, a, x, x + 1)
ErrAt(kind, a, x) == [kind |-> kind, a |-> a, s |-> x, h |-> FALSE, t |-> 0]

At(e, i) == IF i <= Len(e.s) THEN e.s[i] ELSE -1
SkipWhile(s, i, p(_)) == LET RECURSIVE W(_) W(j) == IF j <= Len(s) /\ p(s[j]) THEN W(j + 1) ELSE j IN W(i)
SkipWs(e, i) == SkipWhile(e.s, i, IsSpace)
Err(er, log) == [k |-> "err", e |-> er, log |-> log]
OkV(v, i, log) == [k |-> "ok", v |-> v, i |-> i, log |-> log]

\* s[i] is the opening quote; [k, str, i]
ParseStr(e, i) ==
    LET RECURSIVE L(_, _)
        L(j, acc) ==
            IF j > Len(e.s) THEN [k |-> "err", e |-> ErrOne("StringClosingQuote", <<e.off[i]>>, e.off[j])]
            ELSE LET c == e.s[j] IN
                 IF c = 34 THEN [k |-> "ok", str |-> acc, i |-> j + 1]
                 ELSE IF c # 92 THEN L(j + 1, Append(acc, c))
                 ELSE IF j + 1 > Len(e.s) THEN [k |-> "err", e |-> ErrOne("StringClosingQuote", <<e.off[i]>>, e.off[j + 1])]
                 ELSE IF Unescape(e.s[j + 1]) = -1 THEN [k |-> "err", e |-> ErrOne("StringEscape", <<>>, e.off[j + 1])]
                 ELSE L(j + 2, Append(acc, Unescape(e.s[j + 1])))
    IN L(i + 1, <<>>)
ParseChar(e, i, log) ==
    LET c == At(e, i + 1)
        close(j, ch) == IF At(e, j) = 39 THEN OkV(VChar(ch, 0), j + 1, log)
                        ELSE Err(ErrOne("CharClosingQuote", <<e.off[i]>>, e.off[j]), log)
    IN IF c = -1 THEN Err(ErrOne("CharMissing", <<>>, e.off[i + 1]), log)
       ELSE IF c # 92 THEN close(i + 2, c)
       ELSE LET d == At(e, i + 2) IN
            IF d = -1 THEN Err(ErrOne("CharEscape", <<>>, e.off[i + 2]), log)
            ELSE IF Unescape(d) = -1 THEN Err(ErrOne("CharEscape", <<>>, e.off[i + 3]), log)
            ELSE close(i + 3, Unescape(d))
ParseNumber(e, i, log) ==
    LET neg == At(e, i) = 45
        j0 == IF At(e, i) \in {43, 45} THEN i + 1 ELSE i
        j == IF At(e, j0) # -1 /\ IsDigit(At(e, j0)) THEN SkipWhile(e.s, j0, LAMBDA c : IsDigit(c) \/ c = 95) ELSE j0
        m == TextNat(SelectSeq(SubSeq(e.s, j0, j - 1), IsDigit))
        x == [neg |-> neg /\ m # <<>>, mag |-> m]
    IN IF j = j0 THEN Err(ErrOne("NumberDigit", <<>>, e.off[j]), log)
       ELSE IF neg
       THEN IF FitsI128(x) THEN OkV(VI(x, 0), j, log) ELSE Err(ErrBetween("NumberParse", <<1>>, e.off[i], e.off[j]), log)
       ELSE IF FitsU128(m) THEN OkV(VU(m, 0), j, log) ELSE Err(ErrBetween("NumberParse", <<0>>, e.off[i], e.off[j]), log)
ParseBits(e, i, log) ==
    LET j == SkipWhile(e.s, i + 1, LAMBDA c : c \in {48, 49}) IN
    IF At(e, j) = 62 THEN OkV(VBits([q \in 1..(j - i - 1) |-> e.s[i + q] = 49], 0), j + 1, log)
    ELSE Err(ErrOne("BitsClosingBracket", <<e.off[i]>>, e.off[j]), log)
ParseIdent(e, i) ==
    IF At(e, i) = -1 \/ ~IsAlpha(At(e, i)) THEN None
    ELSE LET j == SkipWhile(e.s, SkipWhile(e.s, i, IsAlpha), IsIdentChar) IN [k |-> "ok", str |-> SubSeq(e.s, i, j - 1), i |-> j]

(***************************************************************************)
(* Custom parsers: the library's hex parser, and synthetic ones, which     *)
(* apply where the text begins with p.lit and then accept the value p.v,   *)
(* having taken p.eat characters more (if there are), fail with the error  *)
(* p.es, p.eh, p.et, or decline after moving their own cursor by p.drift.  *)
(***************************************************************************)
HexMsgChar(c) == \* "Invalid hex character: c"
    <<73, 110, 118, 97, 108, 105, 100, 32, 104, 101, 120, 32, 99, 104, 97, 114, 97, 99, 116, 101, 114, 58, 32, c>>
HexMsgLen == \* "Hex string is the wrong length; should be an even length"
    <<72, 101, 120, 32, 115, 116, 114, 105, 110, 103, 32, 105, 115, 32, 116, 104, 101, 32, 119, 114, 111, 110, 103, 32, 108, 101, 110, 103,
      116, 104, 59, 32, 115, 104, 111, 117, 108, 100, 32, 98, 101, 32, 97, 110, 32, 101, 118, 101, 110, 32, 108, 101, 110, 103, 116, 104>>
HexVal(c) == IF IsDigit(c) THEN c - 48 ELSE IF c >= 65 /\ c <= 70 THEN c - 55 ELSE IF c >= 97 /\ c <= 102 THEN c - 87 ELSE -1
BytesV(b) == VUnnamed([q \in 1..Len(b) |-> VU(NatOf(b[q]), 0)], 0)
\* at position i of s; error offsets are relative to i (all that is looked at is ASCII)
ParseHexAt(s, i) ==
    IF ~Starts(s, i, <<48, 120>>) THEN None
    ELSE LET j == SkipWhile(s, i + 2, IsAsciiAlnum)
             bad == {q \in (i + 2)..(j - 1) : HexVal(s[q]) = -1}
             n == j - i - 2
         IN IF bad # {} THEN LET q == CHOOSE x \in bad : \A y \in bad : x <= y IN
                             [k |-> "err", e |-> ErrAt("Custom", HexMsgChar(s[q]), q - i)]
            ELSE IF n % 2 = 1 THEN [k |-> "err", e |-> ErrBetween("Custom", HexMsgLen, 0, n + 2)]
            ELSE [k |-> "ok", v |-> BytesV([q \in 1..(n \div 2) |-> HexVal(s[i + 2 * q]) * 16 + HexVal(s[i + 2 * q + 1])]), i |-> j]

ParseSynAt(p, s, i) ==
    IF ~Starts(s, i, p.lit) THEN None
    ELSE CASE p.res = "ok" -> LET j == i + Len(p.lit) + p.eat IN [k |-> "ok", v |-> p.v, i |-> IF j > Len(s) + 1 THEN Len(s) + 1 ELSE j]
           [] p.res = "err" -> [k |-> "err", e |-> [kind |-> "Custom", a |-> p.lit, s |-> p.es, h |-> p.eh, t |-> p.et]]
           [] OTHER -> None
ParseSs58At(s, i) == LET r == Ss58At(s, i) IN IF r.ok THEN [k |-> "ok", v |-> BytesV(r.b), i |-> r.i] ELSE None
Shift(er, x) == [er EXCEPT !.s = @ + x, !.t = IF er.h THEN er.t + x ELSE 0]
RunParser(p, s, i) == CASE p.kind = "hex" -> ParseHexAt(s, i) [] p.kind = "ss58" -> ParseSs58At(s, i) [] OTHER -> ParseSynAt(p, s, i)

RECURSIVE Custom(_, _, _, _)
Custom(e, i, q, log) ==
    IF q > Len(e.ps) THEN [k |-> "none", log |-> log]
    ELSE LET r == RunParser(e.ps[q], e.s, i)
             log1 == Append(log, <<q, e.off[Len(e.off)] - e.off[i]>>)
         IN CASE r.k = "ok" -> OkV(r.v, r.i, log1)
              [] r.k = "err" -> Err(Shift(r.e, e.off[i]), log1)
              [] OTHER -> Custom(e, i, q + 1, log1)

RECURSIVE ParseValue(_, _, _)
RECURSIVE ParseFields(_, _, _, _, _)
\* the rest of a composite opened at `at`: fields read so far, the next begins at i
ParseFields(e, at, i, acc, log) ==
    LET named == At(e, at) = 123
        closer == IF named THEN 125 ELSE 41
        n == IF ~named THEN [k |-> "ok", str |-> <<>>, i |-> i]
             ELSE IF At(e, i) = 34 THEN ParseStr(e, i)
             ELSE LET r == ParseIdent(e, i) IN
                  IF r.k = "ok" THEN r ELSE [k |-> "err", e |-> ErrOne("IdentStart", <<>>, e.off[i])]
    IN IF n.k = "err" THEN Err(n.e, log)
       ELSE LET c == SkipWs(e, n.i)
                v == ParseValue(e, IF named THEN SkipWs(e, c + 1) ELSE i, log)
            IN IF named /\ At(e, c) # 58 THEN Err(ErrOne("FieldSeparator", <<58>>, e.off[c]), log)
               ELSE IF v.k = "err" THEN v
               ELSE LET m == SkipWs(e, v.i)
                        acc1 == Append(acc, IF named THEN [n |-> n.str, v |-> v.v] ELSE v.v)
                    IN IF At(e, m) = 44 THEN ParseFields(e, at, SkipWs(e, m + 1), acc1, v.log)
                       ELSE IF At(e, m) = closer
                       THEN OkV(IF named THEN VNamed(acc1, 0) ELSE VUnnamed(acc1, 0), m + 1, v.log)
                       ELSE Err(ErrOne("Closer", <<closer, e.off[at]>>, e.off[m]), v.log)
ParseComposite(e, i, log) ==
    LET j == SkipWs(e, i + 1) IN
    IF At(e, i) = 123 /\ At(e, j) = 125 THEN OkV(VNamed(<<>>, 0), j + 1, log)
    ELSE IF At(e, i) = 40 /\ At(e, j) = 41 THEN OkV(VUnnamed(<<>>, 0), j + 1, log)
    ELSE ParseFields(e, i, j, <<>>, log)
ParseVariant(e, i, log) ==
    LET q == IF At(e, i) = 118 /\ At(e, i + 1) = 34 THEN ParseStr(e, i + 1) ELSE None
        n == IF q.k = "ok" THEN q ELSE ParseIdent(e, i)
        j == SkipWs(e, n.i)
        c == ParseComposite(e, j, log)
    IN IF n.k # "ok" THEN None
       ELSE IF At(e, j) \notin {123, 40} THEN None
       ELSE IF c.k = "err" THEN c
       ELSE OkV(VVar(n.str, IF c.v.k = "named" THEN CNamed(c.v.fs) ELSE CUnnamed(c.v.vs), 0), c.i, c.log)
ParseValue(e, i, log0) ==
    LET cu == Custom(e, i, 1, log0)
        log == cu.log
        c == At(e, i)
    IN IF cu.k # "none" THEN cu
       ELSE IF Starts(e.s, i, TRUE_) THEN OkV(VBool(TRUE, 0), i + 4, log)
       ELSE IF Starts(e.s, i, FALSE_) THEN OkV(VBool(FALSE, 0), i + 5, log)
       ELSE CASE c = 39 -> ParseChar(e, i, log)
              [] c = 34 -> LET r == ParseStr(e, i) IN IF r.k = "ok" THEN OkV(VStr(r.str, 0), r.i, log) ELSE Err(r.e, log)
              [] c # -1 /\ (IsDigit(c) \/ c \in {43, 45}) -> ParseNumber(e, i, log)
              [] c \in {123, 40} -> ParseComposite(e, i, log)
              [] c = 60 -> ParseBits(e, i, log)
              [] OTHER -> LET r == ParseVariant(e, i, log) IN
                          IF r.k = "none" THEN Err(ErrAt("ExpectedValue", <<>>, e.off[i]), log) ELSE r

\* [k, v, i, log] or [k, e, log]; rest: bytes left
Parse(s, ps) == ParseValue(Env(s, ps), 1, <<>>)
RestBytes(s, i) == Utf8Len(SubSeq(s, i, Len(s)))
=============================================================================
