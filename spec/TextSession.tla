----------------------------- MODULE TextSession -----------------------------
(* Calls that print and parse: what they may do, per property.              *)
EXTENDS Text, Session

HasTail(s, t) == Len(s) >= Len(t) /\ SubSeq(s, Len(s) - Len(t) + 1, Len(s)) = t
White(t) == \A i \in 1..Len(t) : IsSpace(t[i])
NoCustomMsg(e) == IF e.kind = "Custom" THEN [e EXCEPT !.a = <<>>] ELSE e

(***************************************************************************)
(* Printing                                                                *)
(***************************************************************************)
\* what: the value itself, or a part of it that can be displayed on its own
SpecPrint(ev) == IF ev.what = "value" THEN PrintWith(ev.v, ev.o) ELSE PutDef(ev.v, ev.o, 0, Blank)

JudgePrint(P, st, ev) ==
    LET o == ev.out
        x == SpecPrint(ev)
        ok == o.r = "ok"
        full == x.ok /\ (ev.budget = -1 \/ Len(x.s) <= ev.budget)
        cut(t) == IF ev.budget = -1 \/ Len(t) <= ev.budget THEN t ELSE SubSeq(t, 1, ev.budget)
    IN IF o.r \notin {"ok", "err"} THEN "bad"
       ELSE CASE P = "C15" -> IF Has256(ev.v) \/ ev.budget # -1 \/ ~IsPlain(ev.o) THEN "skip" ELSE Verdict(ok)
              [] P = "C16" -> IF ev.budget # -1 \/ ~IsPlain(ev.o) \/ ~x.ok THEN "skip" ELSE Verdict(ok /\ o.s = x.s)
              [] P = "C17" ->
                   \* after an error nothing more is written and nothing more is asked
                   IF full THEN Verdict(ok /\ o.s = x.s /\ o.log = x.log)
                   ELSE Verdict(/\ ~ok /\ o.s = cut(x.s) /\ o.after = 0
                                /\ IF Len(x.s) > ev.budget /\ ev.budget # -1 THEN HasPrefix(x.log, o.log) ELSE o.log = x.log)
              [] P = "C21" ->
                   IF x.ok /\ ev.budget = -1 /\ \E q \in 1..Len(ev.o.fmts) : ev.o.fmts[q].kind = "hex"
                   THEN Verdict(ok /\ o.s = x.s) ELSE "skip"
              [] OTHER -> "skip"
AfterPrint(st, ev) == [st EXCEPT !.txt = [has |-> ev.out.r = "ok" /\ ev.budget = -1 /\ IsPlain(ev.o) /\ White(ev.o.by) /\ White(ev.o.lead) /\ ~Has256(ev.v),
                                          s |-> IF "s" \in DOMAIN ev.out THEN ev.out.s ELSE <<>>, v |-> ev.v]]

\* the hex formatter called by itself
JudgeHexF(P, ev) ==
    IF P # "C21" THEN "skip"
    ELSE IF IsHexable(ev.v) THEN Verdict(ev.out.r = "ok" /\ ev.out.s = HexText(ev.v))
    ELSE Verdict(ev.out.r = "none" /\ ev.out.s = <<>>)

(***************************************************************************)
(* Parsing                                                                 *)
(***************************************************************************)
TextOf(st, ev) == IF ev.last THEN st.txt.s ELSE ev.s
Kinds(ps) == {ps[q].kind : q \in 1..Len(ps)}

\* an error's text gives its offsets, and a parser's own message
IsDigitCp(c) == c \in 48..57
Shows(t, n) == LET d == DecText(NatOf(n)) IN
    \E i \in 1..Len(t) : /\ Starts(t, i, d) /\ ~(i > 1 /\ IsDigitCp(t[i - 1]))
                         /\ ~(i + Len(d) <= Len(t) /\ IsDigitCp(t[i + Len(d)]))
ShowsError(t, e) == Shows(t, e.s) /\ (e.h => Shows(t, e.t)) /\ (e.kind = "Custom" => HasTail(t, e.a))

JudgeParse(P, st, ev) ==
    LET o == ev.out
        s == TextOf(st, ev)
        x == Parse(s, ev.ps)
        ok == o.r = "ok"
        same == IF x.k = "ok" THEN ok /\ o.v = x.v /\ o.rest = RestBytes(s, x.i)
                ELSE o.r = "err" /\ NoCustomMsg(o.e) = NoCustomMsg(x.e)
    IN IF o.r \notin {"ok", "err"} THEN "bad"
       ELSE CASE P = "C15" -> IF ev.last /\ st.txt.has /\ ev.ps = <<>>
                              THEN Verdict(ok /\ o.rest = 0 /\ o.v = StripCtx(Unsign(st.txt.v))) ELSE "skip"
              [] P = "C18" -> IF ev.ps # <<>> THEN "skip" ELSE Verdict(IF x.k = "ok" THEN same ELSE ~ok)
              [] P = "C19" ->
                   LET off == OffsetsFold(s) IN
                   IF ~o.suffix THEN "bad"
                   ELSE IF ok THEN "ok"
                   ELSE IF ~ShowsError(o.text, o.e) THEN "bad"
                   ELSE IF ev.ps # <<>> THEN "ok"
                   ELSE Verdict(/\ \E i \in 1..Len(off) : off[i] = o.e.s
                                /\ o.e.h => o.e.t > o.e.s
                                /\ x.k = "err" => o.e = x.e)
              [] P = "C20" -> IF ev.ps = <<>> THEN "skip" ELSE Verdict(same /\ o.log = x.log)
              [] P = "C21" -> IF "hex" \in Kinds(ev.ps) THEN Verdict(same) ELSE "skip"
              [] P = "C22" -> IF "ss58" \in Kinds(ev.ps) THEN Verdict(same) ELSE "skip"
              [] OTHER -> "skip"

\* the library's parsers called by themselves; a call that does not accept leaves the text as it was
JudgeOwn(P, ev) ==
    LET o == ev.out
        x == IF ev.op = "hexp" THEN ParseHexAt(ev.s, 1) ELSE ParseSs58At(ev.s, 1)
    IN IF P # (IF ev.op = "hexp" THEN "C21" ELSE "C22") THEN "skip"
       ELSE CASE x.k = "ok" -> Verdict(o.r = "ok" /\ o.v = x.v /\ o.rest = RestBytes(ev.s, x.i))
              [] x.k = "err" -> Verdict(o.r = "err" /\ NoCustomMsg(o.e) = NoCustomMsg(x.e) /\ o.rest = Utf8Len(ev.s))
              [] OTHER -> Verdict(o.r = "none" /\ o.rest = Utf8Len(ev.s))

(***************************************************************************)
(* Tracing errors: the text names the path to the item that could not be   *)
(* decoded and shows what was decoded with the type ids as contexts.       *)
(***************************************************************************)
\* "Error decoding value"  "\nDecoded so far:\n\n"
TraceHead == <<69, 114, 114, 111, 114, 32, 100, 101, 99, 111, 100, 105, 110, 103, 32, 118, 97, 108, 117, 101>>
TraceSoFar == <<10, 68, 101, 99, 111, 100, 101, 100, 32, 115, 111, 32, 102, 97, 114, 58, 10, 10>>
Segment(g) == <<46>> \o (IF g.seg = "idx" THEN <<91>> \o DecText(NatOf(g.i)) \o <<93>> ELSE g.n)
PathText(at) == FlattenSeq([j \in 1..Len(at) |-> Segment(at[j])])
TraceStyle == [Plainly("pretty") EXCEPT !.use = TRUE, !.fmts = <<[kind |-> "hex"]>>]
JudgeTrace(reg, st, ev) ==
    LET o == ev.out
        s == SpecDec(reg, st, ev)
        head == TraceHead \o <<32, 97, 116, 32>> \o PathText(s.at) \o <<58, 32>>
        x == PrintWith(s.part, TraceStyle)
    IN IF o.r \notin {"ok", "err"} THEN "bad"
       ELSE IF ev.how # "trace" \/ s.ok \/ ~BoundedTypes(reg, ev) THEN "skip"
       ELSE IF o.r = "ok" \/ ~o.shown THEN "bad"
       ELSE IF s.top THEN Verdict(HasPrefix(o.text, TraceHead \o <<58, 32>>) /\ \A i \in 1..Len(o.text) : ~Starts(o.text, i, TraceSoFar))
       ELSE Verdict(/\ HasPrefix(o.text, head)
                    \* 256-bit integers have no documented text
                    /\ IF Has256(s.part) THEN \E i \in 1..Len(o.text) : Starts(o.text, i, TraceSoFar)
                       ELSE HasTail(o.text, TraceSoFar \o x.s))
=============================================================================
