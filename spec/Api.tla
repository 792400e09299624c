-------------------------------- MODULE Api --------------------------------
(* Every public call: how its outcome is judged for a property, and the     *)
(* state of the session after it.                                           *)
EXTENDS DataSession, Macro

(* an invocation of the value macro *)
JudgeMacro(P, ev) == IF P # "C29" THEN "skip" ELSE Verdict(ev.out.r = "ok" /\ ev.out.v = Denote(ev.t))

Judge(P, reg, st, ev) ==
    CASE "fault" \in DOMAIN ev -> IF P # "C32" THEN "skip" ELSE IF ev.op \in {"enc", "encf"} THEN JudgeFaultEnc(reg, st, ev) ELSE JudgeFaultDec(reg, st, ev)
      [] ev.op \in {"enc", "encf"} -> JudgeEnc(P, reg, st, ev)
      [] ev.op \in {"dec", "decf"} -> IF P = "C12" THEN JudgeTrace(reg, st, ev) ELSE JudgeDec(P, reg, st, ev)
      [] ev.op = "long" -> JudgeLong(P, reg, ev)
      [] ev.op = "print" -> JudgePrint(P, st, ev)
      [] ev.op = "hexf" -> JudgeHexF(P, ev)
      [] ev.op = "parse" -> JudgeParse(P, st, ev)
      [] ev.op \in {"hexp", "ss58p"} -> JudgeOwn(P, ev)
      [] ev.op \in {"setbuf", "load", "feed"} -> "skip"
      [] ev.op \in DataOps -> JudgeData(P, ev)
      [] ev.op = "macro" -> JudgeMacro(P, ev)

After(reg, st, ev) ==
    CASE ev.op \in {"enc", "encf"} -> AfterEnc(reg, st, ev)
      [] ev.op \in {"dec", "decf"} -> AfterDec(reg, st, ev)
      [] ev.op \in {"long", "hexf", "parse", "hexp", "ss58p", "macro"} \cup DataOps -> st
      [] ev.op = "print" -> AfterPrint(st, ev)
      [] ev.op = "setbuf" -> [st EXCEPT !.buf = ev.b]
      [] ev.op = "load" -> [st EXCEPT !.inp = ev.b, !.pos = 1, !.dec = NoDec]
      [] ev.op = "feed" -> [st EXCEPT !.inp = st.buf, !.pos = 1, !.dec = NoDec]
=============================================================================
