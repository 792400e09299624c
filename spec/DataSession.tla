----------------------------- MODULE DataSession -----------------------------
(* Calls that convert, look up, rebuild and build values: what they may do.  *)
EXTENDS Data, TextSession

\* the outcome of reading against what is specified
Meets(s, good, val) == s.r = "any" \/ (IF s.r = "ok" THEN good /\ val = s.x ELSE ~good)

\* a named composite whose first name is the mark of bit sequences cannot be told from one
RECURSIVE Marked(_)
MarkedC(c) == \/ c.k = "named" /\ c.fs # <<>> /\ c.fs[1].n = Ident
              \/ \E i \in 1..CLen(c) : Marked(CVal(c, i))
Marked(v) == IF IsComposite(v) THEN MarkedC(v) ELSE IF v.k = "var" THEN \E i \in 1..CLen(v.c) : Marked(CVal(v.c, i)) ELSE FALSE

JudgeSer(P, ev) ==
    IF P # "C24" THEN "skip" ELSE Verdict(ev.out.r = "ok" /\ ev.out.t = SerTree(ev.v))

JudgeToVal(P, ev) ==
    LET s == ToVal(ev.x) o == ev.out IN
    IF P \notin {"C23", "C24", "C25"} THEN "skip"
    ELSE IF P = "C23" /\ (ev.x.k # "val" \/ Has256(ev.x.v)) THEN "skip"
    ELSE IF s.r = "ok" THEN Verdict(o.r = "ok" /\ o.v = s.x) ELSE Verdict(o.r = "err" /\ o.e = s.e)

JudgeAny(P, ev) ==
    LET s == FA(ev.as, ev.x, FALSE) o == ev.out IN
    IF P # "C24" THEN "skip"
    ELSE IF s.r = "any" THEN "ok" ELSE Verdict(IF s.r = "ok" THEN o.r = "ok" /\ o.v = s.x ELSE o.r = "err")

Whole(ev) == ev.part # "part" \/ ev.v.k = "bits"
JudgeDe(P, ev) ==
    LET s == De(ev.t, ev.v, Whole(ev)) o == ev.out IN
    IF Probe(ev) THEN Verdict(o.r = "ok" /\ o.x = DVal(ev.v)) ELSE
    IF P = "C23" /\ (ev.t.t \notin Kinds5 \cup {"bits"} \/ Has256(ev.v) \/ Marked(ev.v)) THEN "skip"
    ELSE IF P \notin {"C23", "C25"} THEN "skip"
    ELSE IF s.r = "any" THEN "ok" ELSE Verdict(IF s.r = "ok" THEN o.r = "ok" /\ o.x = s.x ELSE o.r = "err")

JudgeRt(P, ev) ==
    LET s == ToVal(ev.x) o == ev.out IN
    IF P # "C25" THEN "skip"
    ELSE IF s.r # "ok" THEN Verdict(o.r = "err" /\ o.e = s.e)
    ELSE Verdict(/\ o.r = "ok"
                 /\ ev.t.t # "addr" => o.v = s.x       \* (how it is written is its own choice)
                 /\ Plain25(ev.t) \/ Probe(ev) => o.back /\ o.x = ev.x)

JudgeJson(P, ev) ==
    LET s == FromJson(ev.v) o == ev.out IN
    IF P # "C24" THEN "skip"
    ELSE Verdict(/\ o.r = "ok" /\ o.s = JsonText(SerTree(ev.v))
                 /\ s.r # "any" => (s.r = "ok") = o.back /\ (o.back => o.v = s.x))

JudgeAt(P, ev) ==
    LET s == AtPath(ev.v, ev.steps) IN
    IF P # "C26" THEN "skip"
    ELSE IF s = <<>> THEN Verdict(ev.out.r = "none") ELSE Verdict(ev.out.r = "ok" /\ ev.out.v = s[1])

\* the nodes whose contexts are mapped
Mapped(ev, v) == IF ev.what = "value" THEN Contexts(v) ELSE Tail(Contexts(v))
JudgeMapCtx(P, ev) ==
    LET o == ev.out
        old == Mapped(ev, ev.v)
        new == Mapped(ev, o.v)
    IN IF P # "C27" THEN "skip"
       ELSE IF o.r # "ok" THEN "bad"
       ELSE IF ev.what = "remove" THEN Verdict(o.v = StripCtx(ev.v))
       ELSE Verdict(/\ StripCtx(o.v) = StripCtx(ev.v)
                    /\ Len(o.log) = Len(old)
                    /\ {new[i] : i \in 1..Len(new)} = 1..Len(old)
                    /\ \A i \in 1..Len(new) : o.log[new[i]] = old[i])

Ints(w) == [i \in 1..Len(w) |-> VI(IF w[i] < 128 THEN Pos(NatOf(w[i])) ELSE [neg |-> TRUE, mag |-> NatOf(256 - w[i])], 0)]
Built(ev) ==
    CASE ev.how \in {"named_composite", "named_composite_it", "from_pairs", "from_pairs_str", "from_pairs_bool"} -> VNamed(ev.fs, 0)
      [] ev.how \in {"unnamed_composite", "unnamed_composite_it", "from_vec"} -> VUnnamed(ev.vs, 0)
      [] ev.how \in {"variant", "primitive", "without_context", "comp_named", "comp_unnamed", "variant_fields", "from_prim", "from_comp", "from_variant"} -> ev.v
      [] ev.how = "with_context" -> WithCtx(ev.v, ev.ctx)
      [] ev.how = "named_variant" -> VVar(ev.n, CNamed(ev.fs), 0)
      [] ev.how = "unnamed_variant" -> VVar(ev.n, CUnnamed(ev.vs), 0)
      [] ev.how \in {"bit_sequence", "from_bits"} -> VBits(ev.bits, 0)
      [] ev.how \in {"from_bytes", "from_vec_u8"} -> BytesVal(ev.w)
      [] ev.how = "from_vec_i16" -> VUnnamed(Ints(ev.w), 0)
      [] ev.how = "from_vec_vec" -> VUnnamed(<<BytesVal(ev.w), BytesVal(<<7>>)>>, 0)
      [] ev.how = "from_int" -> IF ev.x.ty \in UTypes \cup {"usize"} THEN VU(ev.x.i, 0) ELSE VI(IntOfD(ev.x), 0)
      [] ev.how \in {"u128", "prim_u128"} -> VU(ev.x.i, 0)
      [] ev.how \in {"i128", "prim_i128"} -> VI(IntOfD(ev.x), 0)
      [] ev.how \in {"string", "bool", "char", "from_bool", "from_char", "from_string", "from_str"} -> ToVal(ev.x).x
JudgeBuild(P, ev) == IF P # "C28" THEN "skip" ELSE Verdict(ev.out.r = "ok" /\ ev.out.v = Built(ev))

Down(n) == [i \in 1..(n + 1) |-> n + 1 - i]
JudgeAcc(P, ev) ==
    LET o == ev.out v == ev.v IN
    IF P # "C28" THEN "skip"
    ELSE IF o.r # "ok" THEN "bad"
    ELSE IF ev.part = "part" /\ v.k = "bits" THEN Verdict(o.bits = v.bits)
    ELSE IF ev.part = "part" /\ (IsComposite(v) \/ v.k = "var")
         THEN LET c == IF v.k = "var" THEN v.c ELSE v IN
              Verdict(/\ o.c.len = CLen(c) /\ o.c.empty = (CLen(c) = 0)
                      /\ o.c.values = CVals(c) /\ o.c.own = CVals(c) /\ o.c.lens = Down(CLen(c)) /\ o.c.olens = Down(CLen(c))
                      /\ (v.k = "var" => o.n = v.n))
    ELSE Verdict(o.sc = Scalars(v))

\* what the call itself may do, and what it does when the format, or the type, fails at the nth thing asked of it:
\* it fails with that error and asks nothing more.  The sizes announced are no part of it.
MiB == 1048576
Least(a, b) == IF a < b THEN a ELSE b
JudgeThru(P, ev) ==
    LET o == ev.out
        base == CASE ev.dir = "any" -> JudgeAny("C24", ev) [] ev.dir = "ser" -> JudgeSer("C24", ev)
                  [] ev.dir = "toval" -> JudgeToVal("C24", ev) [] OTHER -> JudgeDe("C25", ev)
    IN IF P # "C30" THEN "skip"
       ELSE Verdict(/\ base # "bad"
                    /\ o.n >= 1 /\ Len(o.faults) = (IF o.n < 60 THEN o.n ELSE 60)
                    /\ \A i \in 1..Len(o.faults) : o.faults[i] = [r |-> "err", e |-> "fault", after |-> 0]
                    /\ o.mem <= MiB * (4 + (IF o.n < 1000 THEN o.n ELSE 1000) + Least(o.kib, 8000) \div 16))

JudgeData(P, ev) ==
    CASE ev.out.r \in {"panic", "capped", "badop"} -> "bad"
      [] ev.op = "ser" -> JudgeSer(P, ev)
      [] ev.op = "toval" -> JudgeToVal(P, ev)
      [] ev.op = "any" -> JudgeAny(P, ev)
      [] ev.op = "de" -> JudgeDe(P, ev)
      [] ev.op = "rt" -> JudgeRt(P, ev)
      [] ev.op = "json" -> JudgeJson(P, ev)
      [] ev.op = "at" -> JudgeAt(P, ev)
      [] ev.op = "mapctx" -> JudgeMapCtx(P, ev)
      [] ev.op = "build" -> JudgeBuild(P, ev)
      [] ev.op = "acc" -> JudgeAcc(P, ev)
      [] ev.op = "thru" -> JudgeThru(P, ev)
DataOps == {"thru", "ser", "toval", "any", "de", "rt", "json", "at", "mapctx", "build", "acc"}
=============================================================================
