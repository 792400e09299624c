------------------------------ MODULE Session ------------------------------
(***************************************************************************)
(* A user of the library: an output buffer that encoding appends to, an    *)
(* input with a cursor that decoding advances, and the last encode and     *)
(* decode (history needed to state the laws).  One action per public call. *)
(*                                                                         *)
(* Each call op is judged for one property P: Judge* gives "ok" (the       *)
(* outcome is what P demands), "bad" (P is violated) or "skip" (P says     *)
(* nothing about this call), and After* the state after the call.          *)
(***************************************************************************)
EXTENDS Laws

\* a probe asks for a case that is otherwise set aside (known findings)
Probe(ev) == "probe" \in DOMAIN ev

NoEnc == [has |-> FALSE]
NoDec == [has |-> FALSE]
NoTxt == [has |-> FALSE, s |-> <<>>]     \* text printed last
Start == [buf |-> <<>>, inp |-> <<>>, pos |-> 1, enc |-> NoEnc, dec |-> NoDec, txt |-> NoTxt]

Rest(st) == SubSeq(st.inp, st.pos, Len(st.inp))
Verdict(b) == IF b THEN "ok" ELSE "bad"
HasPrefix(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
Suffix(s, n) == SubSeq(s, n + 1, Len(s))

(***************************************************************************)
(* Encode                                                                  *)
(***************************************************************************)
SpecEnc(reg, ev) ==
    IF ev.op = "enc" THEN Enc(reg, ev.ty, ev.v)
    ELSE IF IsComposite(ev.v) THEN EncFieldList(reg, ev.fs, ev.v) ELSE Bad
SpecExact(reg, ev) ==
    IF ev.op = "enc" THEN ExactEnc(reg, ev.ty, ev.v)
    ELSE IF IsComposite(ev.v) THEN ExactFields(reg, ev.fs, ev.v, FALSE) ELSE Bad
SameEncCall(e, ev) == e.has /\ e.ev.op = ev.op /\ e.ev.v = ev.v /\
                      (IF ev.op = "enc" THEN e.ev.ty = ev.ty ELSE e.ev.fs = ev.fs)

PlainFor(reg, ev) == IF ev.op \in {"enc", "dec"} THEN PlainType(reg, ev.ty)
                     ELSE DistinctNames(ev.fs) /\ \A j \in 1..Len(ev.fs) : PlainType(reg, ev.fs[j].i)

JudgeEnc(P, reg, st, ev) ==
    LET o == ev.out
        kept == HasPrefix(o.buf, st.buf)
        app == Suffix(o.buf, Len(st.buf))
        ok == o.r = "ok"
        is(b) == ok /\ kept /\ app = b
    IN IF P = "C10" THEN
              (IF Recursive(reg, ev.ty) THEN (IF Probe(ev) \/ ~ListCycle(reg, ev.ty) THEN Verdict(o.r \in {"ok", "err"}) ELSE "skip")
               ELSE IF o.r = "capped" /\ 4 * WorkBound(reg, ev.ty, ev.v) >= (IF "cap" \in DOMAIN ev THEN ev.cap ELSE 2000000) THEN "skip"
               ELSE Verdict(o.r \in {"ok", "err"} /\ o.calls \div 4 <= WorkBound(reg, ev.ty, ev.v)))
       ELSE IF o.r \notin {"ok", "err"} THEN "bad"
       ELSE CASE P = "C01" ->
              \* the value just decoded encodes to the bytes it was decoded from
              IF st.dec.has /\ st.dec.ok /\ ev.op = "enc" /\ st.dec.ev.op = "dec" /\ st.dec.ty = ev.ty /\ st.dec.v = ev.v /\ PlainFor(reg, ev)
              THEN LET x == ExactEnc(reg, ev.ty, ev.v) IN
                   \* non-canonical padding of a bit sequence is the one thing a value does not keep
                   IF x.ok /\ x.b # st.dec.bytes
                   THEN LET d == Dec(reg, ev.ty, x.b) IN
                        IF /\ Len(x.b) = Len(st.dec.bytes) /\ d.ok /\ StripCtx(d.v) = StripCtx(ev.v)
                           /\ \E i \in Reach(reg, ev.ty) : Ty(reg, i).t = "bits"
                        THEN Verdict(is(x.b)) ELSE "bad"
                   ELSE Verdict(is(st.dec.bytes))
              ELSE IF PlainFor(reg, ev) /\ ExactEnc(reg, ev.ty, ev.v).ok THEN Verdict(ok) ELSE "skip"
         [] P \in {"C02", "C14"} ->
              LET x == SpecExact(reg, ev) IN
              IF x.ok /\ PlainFor(reg, ev) THEN Verdict(is(x.b))
              ELSE IF P = "C14" /\ ev.op = "enc" /\ IsComposite(ev.v) /\ Ty(reg, ev.ty).t = "bits"
              THEN LET y == EncValsAsBits(CVals(ev.v), Ty(reg, ev.ty)) IN
                   IF y.ok THEN Verdict(is(y.b)) ELSE "skip"
              ELSE "skip"
         [] P = "C06" ->
              IF ~kept THEN "bad"
              ELSE IF ~ok /\ ev.op = "enc" /\ IsComposite(ev.v) THEN Verdict(o.buf = st.buf)
              ELSE IF SameEncCall(st.enc, ev) THEN Verdict(ok = st.enc.ok /\ (ok => app = st.enc.app))
              ELSE "ok"
         [] P = "C07" ->
              \* ev.exact: the exact value this one was derived from by dropping or adding wrappers
              LET x == ExactEnc(reg, ev.ty, ev.exact)
                  m == Enc(reg, ev.ty, ev.v)
              IN IF x.ok /\ m.ok /\ m.b = x.b THEN Verdict(is(x.b)) ELSE "skip"
         [] P \in {"C08", "C13"} ->
              LET m == SpecEnc(reg, ev) IN IF m.ok THEN Verdict(is(m.b)) ELSE Verdict(~ok)
         [] P = "C31" ->
              IF ok THEN "skip"
              ELSE LET ps == IF ev.op = "enc" THEN Blame(reg, ev.ty, ev.v) ELSE BlameFields(reg, ev.fs, ev.v) IN
                   IF ps = {} THEN "skip" ELSE Verdict(Blames(ps, o.path))
         [] P = "C09" ->
              IF ~ok THEN "ok"
              ELSE IF Has256Type(reg, ev.ty) THEN "skip"
              ELSE LET d == Dec(reg, ev.ty, app) IN
                   Verdict(kept /\ d.ok /\ d.p = Len(app) + 1 /\ Represents(reg, ev.v, d.v))
         [] OTHER -> "skip"

\* C32, a call during which lookups of types fail: those of the types in fault.gone, or from the lookup fault.from
\* on (once: only that one); o.faults is how many did
JudgeFaultEnc(reg, st, ev) ==
    LET o == ev.out
        gone == ToSet(ev.fault.gone)
        kept == HasPrefix(o.buf, st.buf)
        app == Suffix(o.buf, Len(st.buf))
        ok == o.r = "ok"
        full == SpecEnc(reg, ev)
        same == IF \E i \in (IF ev.op = "enc" THEN {ev.ty} ELSE {ev.fs[j].i : j \in 1..Len(ev.fs)}) : Has256Type(reg, i) THEN TRUE
                ELSE IF ev.op = "enc" THEN SaysSame(reg, ev.ty, ev.v, app) ELSE FieldsSaySame(reg, ev.fs, ev.v, app)
    IN IF o.r \notin {"ok", "err"} \/ ~kept THEN "bad"
       ELSE IF ~ok /\ ev.op = "enc" /\ IsComposite(ev.v) /\ app # <<>> THEN "bad"
       ELSE IF o.faults = 0 THEN Verdict(ok = full.ok /\ (ok => app = full.b))
       ELSE IF gone # {} THEN Verdict(ok = SpecEnc(Minus(reg, gone), ev).ok /\ (ok => same))
       ELSE IF ev.fault.once THEN Verdict(ok => same)
       ELSE Verdict(~ok)

AfterEnc(reg, st, ev) ==
    IF ev.out.r \notin {"ok", "err"} THEN st
    ELSE [st EXCEPT !.buf = ev.out.buf,
                    !.enc = [has |-> TRUE, ev |-> ev, ok |-> ev.out.r = "ok", at |-> Len(st.buf),
                             app |-> IF HasPrefix(ev.out.buf, st.buf) THEN Suffix(ev.out.buf, Len(st.buf)) ELSE <<>>]]

(***************************************************************************)
(* Decode                                                                  *)
(***************************************************************************)
SpecDec(reg, st, ev) ==
    IF ev.op = "dec" THEN DecAt(reg, ev.ty, st.inp, st.pos, FALSE)
    ELSE LET r == DecFields(reg, ev.fs, st.inp, st.pos, <<>>, FALSE) IN
         IF r.ok THEN [ok |-> TRUE, v |-> r.c, p |-> r.p] ELSE [ok |-> FALSE]
NoCtx(ev) == ev.how \in {"unit", "value"}
SpecVal(ev, v) == IF ~NoCtx(ev) THEN v ELSE IF ev.op = "dec" THEN StripCtx(v) ELSE SetCtxC(v, 0)
BoundedTypes(reg, ev) == IF ev.op = "dec" THEN ~HasZeroSizedSeq(reg, ev.ty)
                         ELSE \A j \in 1..Len(ev.fs) : ~HasZeroSizedSeq(reg, ev.fs[j].i)

JudgeDec(P, reg, st, ev) ==
    LET o == ev.out
        s == SpecDec(reg, st, ev)
        ok == o.r = "ok"
        rem(p) == Len(st.inp) + 1 - p
        agrees == ok /\ o.v = SpecVal(ev, s.v) /\ o.rem = rem(s.p)
    IN IF o.r \notin {"ok", "err"} THEN "bad"
       ELSE CASE P \in {"C01", "C02"} ->
              \* what was encoded last decodes back
              IF ev.op = "dec" /\ st.enc.has /\ st.enc.ok /\ st.enc.ev.op = "enc" /\ Rest(st) = st.enc.app /\ PlainFor(reg, ev)
              THEN LET ev2 == st.enc.ev IN
                   IF ev2.ty = ev.ty /\ ExactEnc(reg, ev.ty, ev2.v).ok
                   THEN Verdict(ok /\ StripCtx(o.v) = StripCtx(ev2.v) /\ o.rem = 0) ELSE "skip"
              ELSE "skip"
         [] P = "C03" -> IF s.ok THEN Verdict(ok /\ o.v = SpecVal(ev, s.v)) ELSE "skip"
         [] P \in {"C04", "C13", "C14"} ->
              IF s.ok THEN Verdict(agrees)
              ELSE IF P = "C13" /\ BoundedTypes(reg, ev) THEN Verdict(~ok) ELSE "skip"
         [] P = "C05" ->
              IF ~BoundedTypes(reg, ev) /\ ~Probe(ev) THEN "skip"
              ELSE Verdict(/\ o.mem <= MemBound(reg, Len(st.inp))
                           /\ ok => s.ok /\ agrees)
         [] P = "C11" ->
              IF ev.how = "trace" /\ st.dec.has /\ st.dec.ev.how = "plain" /\ st.dec.ev.ty = ev.ty /\ st.dec.from = st.pos /\ BoundedTypes(reg, ev)
              THEN Verdict(/\ ok = st.dec.ok
                           /\ ok => o.v = st.dec.v /\ o.rem = st.dec.rem)
              ELSE "skip"
         [] OTHER -> "skip"

JudgeFaultDec(reg, st, ev) ==
    LET o == ev.out
        gone == ToSet(ev.fault.gone)
        s == SpecDec(reg, st, ev)
        ok == o.r = "ok"
        agrees == s.ok /\ o.v = SpecVal(ev, s.v) /\ o.rem = Len(st.inp) + 1 - s.p
    IN IF o.r \notin {"ok", "err"} THEN "bad"
       ELSE IF ~BoundedTypes(reg, ev) THEN "skip"
       ELSE IF ~ok /\ ev.how = "trace" /\ ~o.shown THEN "bad"
       ELSE IF o.faults = 0 THEN Verdict(ok = s.ok /\ (ok => agrees))
       ELSE IF gone # {} THEN Verdict(ok = SpecDec(Minus(reg, gone), st, ev).ok /\ (ok => agrees))
       ELSE Verdict(~ok)

AfterDec(reg, st, ev) ==
    IF ev.out.r = "ok"
    THEN LET p == Len(st.inp) + 1 - ev.out.rem IN
         [st EXCEPT !.pos = IF ev.keep THEN @ ELSE p,
                    !.dec = [has |-> TRUE, ev |-> ev, ok |-> TRUE, v |-> ev.out.v, rem |-> ev.out.rem, from |-> st.pos,
                             ty |-> IF ev.op = "dec" THEN ev.ty ELSE -1,
                             bytes |-> SubSeq(st.inp, st.pos, p - 1)]]
    ELSE [st EXCEPT !.dec = [has |-> TRUE, ev |-> ev, ok |-> FALSE, from |-> st.pos, ty |-> IF ev.op = "dec" THEN ev.ty ELSE -1,
                             v |-> VBool(FALSE, 0), rem |-> 0, bytes |-> <<>>]]

(***************************************************************************)
(* Long uniform data: n copies of one element (list, named list, array,    *)
(* characters of a string, bits), too long to be written out.  The outcome *)
(* gives the bytes as candidates (pre, unit): the encoding is pre followed *)
(* by t copies of unit; decoded again, dn elements, same: all are v.       *)
(***************************************************************************)
ElemOf(reg, ty) == Ty(reg, ty).i
JudgeLong(P, reg, ev) ==
    LET o == ev.out
        unit == CASE ev.what \in {"list", "named", "arr"} -> ExactEnc(reg, ElemOf(reg, ev.ty), ev.v).b
                  [] ev.what = "str" -> CharBytes(ev.v)
                  [] ev.what = "bits" -> <<IF ev.v THEN 255 ELSE 0>>
        pre == CASE ev.what \in {"list", "named", "bits"} -> EncCompact(NatOf(ev.n))
                 [] ev.what = "arr" -> <<>>
                 [] ev.what = "str" -> EncCompact(NatOf(ev.n * CharWidth(ev.v)))
        enc == o.r = "ok" /\ \E i \in 1..Len(o.cands) : o.cands[i].pre = pre /\ o.cands[i].unit = unit
        dec == o.dr = "ok" /\ o.dn = ev.n /\ o.same /\ o.rem = 0
    IN IF o.r \notin {"ok", "err"} THEN "bad"
       ELSE CASE P = "C02" -> Verdict(enc)
              [] P = "C14" -> IF ev.what = "bits" THEN Verdict(enc /\ dec) ELSE "skip"
              [] P \in {"C01", "C09"} -> Verdict(enc /\ dec)
              [] P \in {"C03", "C04", "C05"} -> IF enc THEN Verdict(dec) ELSE "skip"
              [] P = "C11" -> IF o.dr = "ok" THEN Verdict(o.tr = "ok" /\ o.tn = o.dn /\ o.tsame = o.same /\ o.trem = o.rem) ELSE Verdict(o.tr # "ok")
              [] OTHER -> "skip"
=============================================================================
