------------------------------ MODULE MCStream ------------------------------
(***************************************************************************)
(* Encoding into one buffer and decoding from it, as a state machine: what *)
(* was encoded comes out again in order, whatever is interleaved, and      *)
(* nothing written is ever touched again.                                  *)
(***************************************************************************)
EXTENDS Universe

CONSTANTS Mode, Deep

VARIABLES buf,     \* the output buffer
          log,     \* what was encoded into it: [ty, v, n], or ty = -1 for n bytes left behind by a failed encode
          inp, todo, pos, got,
          last     \* the last call
vars == <<buf, log, inp, todo, pos, got, last>>

Types == {1, 18, 20, 39, 51, 53, 55, 71} \cup (IF Deep > 1 THEN {32, 42, 52, 60, 85} ELSE {})
\* values that fit and values that do not
Calls == UNION {{[ty |-> t, v |-> v] : v \in Inh(Zoo, t, 3, 1)} : t \in Types} \cup
         {[ty |-> t, v |-> v] : t \in Types, v \in {VUnnamed(<<VU(<<0, 1>>, 0), VU(<<0, 0, 0, 1>>, 0)>>, 0), VVar(B_, CUnnamed(<<VStr(<<97>>, 0)>>), 0)}}

Init == buf = <<>> /\ log = <<>> /\ inp = <<>> /\ todo = <<>> /\ pos = 1 /\ got = <<>> /\ last = [op |-> "start"]

Encode(c) ==
    /\ Len(log) < 1 + Deep
    /\ LET e == Enc(Zoo, c.ty, c.v) IN
       /\ e.ok
       /\ buf' = buf \o e.b
       /\ log' = Append(log, [ty |-> c.ty, v |-> c.v, n |-> Len(e.b)])
       /\ last' = [op |-> "enc", comp |-> IsComposite(c.v), ok |-> TRUE]
       /\ UNCHANGED <<inp, todo, pos, got>>
EncodeFails(c) ==
    /\ Len(log) < 1 + Deep
    /\ ~Enc(Zoo, c.ty, c.v).ok
    \* only composites promise to leave no bytes behind (a variant may leave its index)
    /\ LET junk == IF IsComposite(c.v) \/ Ty(Zoo, c.ty).t # "var" THEN <<>> ELSE <<0>> IN
       /\ buf' = buf \o junk
       /\ log' = IF junk = <<>> THEN log ELSE Append(log, [ty |-> -1, v |-> VBool(FALSE, 0), n |-> Len(junk)])
    /\ last' = [op |-> "enc", comp |-> IsComposite(c.v), ok |-> FALSE]
    /\ UNCHANGED <<inp, todo, pos, got>>
Take == /\ log # <<>> /\ inp' = buf /\ todo' = log /\ pos' = 1 /\ got' = <<>>
        /\ last' = [op |-> "feed"]
        /\ UNCHANGED <<buf, log>>
DecodeNext ==
    /\ todo # <<>> /\ Head(todo).ty >= 0
    /\ LET d == DecAt(Zoo, Head(todo).ty, inp, pos, FALSE) IN
       /\ got' = Append(got, IF d.ok THEN [ok |-> TRUE, v |-> d.v, of |-> Head(todo), p |-> d.p] ELSE [ok |-> FALSE])
       /\ pos' = IF d.ok THEN d.p ELSE pos
    /\ todo' = Tail(todo)
    /\ last' = [op |-> "dec"]
    /\ UNCHANGED <<buf, log, inp>>
Next == (\E c \in Calls : Encode(c) \/ EncodeFails(c)) \/ Take \/ DecodeNext
Spec == Init /\ [][Next]_vars

Fifo == \A i \in 1..Len(got) : got[i].ok /\ Represents(Zoo, got[i].of.v, got[i].v)
CursorExact == /\ \A i \in 1..Len(got) : got[i].p = 1 + FoldLeft(LAMBDA a, g : a + g.of.n, 0, SubSeq(got, 1, i))
               /\ (inp # <<>> /\ todo = <<>>) => pos = Len(inp) + 1
PropAppendOnly == [][IsPrefix(buf, buf')]_vars
PropFailedComposite == [][(last'.op = "enc" /\ last'.comp /\ ~last'.ok) => buf' = buf]_vars
=============================================================================
