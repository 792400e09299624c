------------------------------- MODULE Blame -------------------------------
(***************************************************************************)
(* Which part of a value an encoding failure may name: paths of locations, *)
(* outermost first, each an index ([k |-> "i", i]) or a field ([k |-> "f", *)
(* n]).  Encoding tries a list of values as it is, against what the type   *)
(* wraps, and without its outer layer; when all fail, the failure tells of *)
(* the list as it is, and there of some part that does not fit.  A layer   *)
(* that is left out has no location.                                       *)
(***************************************************************************)
EXTENDS Scale

LIdx(i) == [k |-> "i", i |-> i]
LFld(n) == [k |-> "f", n |-> n]
NoPath == {<<>>}
Under(l, ps) == {<<l>> \o p : p \in ps}
\* where the items of a list are found
LocOf(c, j) == IF c.k = "named" THEN LFld(c.fs[j].n) ELSE LIdx(j - 1)

RECURSIVE Blame(_, _, _), BlameAsIs(_, _, _)
\* values vs against types is, found at locations ls
BlameEach(reg, is, vs, ls) ==
    UNION {Under(ls[j], Blame(reg, is[j], vs[j])) : j \in 1..Len(vs)}

BlameFieldList(reg, fs, c) ==
    IF AnyNamed(fs) /\ c.k = "named" /\ Len(c.fs) > 0 THEN
        LET hits(n) == SelectSeq(c.fs, LAMBDA f : f.n = n)
        IN UNION {IF hits(fs[j].n) = <<>> THEN NoPath ELSE Under(LFld(fs[j].n), Blame(reg, fs[j].i, Last(hits(fs[j].n)).v)) : j \in 1..Len(fs)}
    ELSE IF Len(fs) # CLen(c) THEN NoPath
    ELSE BlameEach(reg, [j \in 1..Len(fs) |-> fs[j].i], CVals(c), [j \in 1..Len(fs) |-> LocOf(c, j)])

BlameHelper(reg, id, c) ==
    LET s == SkipU(reg, id) d == Ty(reg, s)
        named == c.k = "named" /\ Len(c.fs) > 0
    IN CASE d.t = "comp" -> IF ~named /\ CLen(c) = 1 THEN Blame(reg, s, CVal(c, 1)) ELSE BlameFieldList(reg, d.fs, c)
         [] d.t = "tup" -> IF CLen(c) = 1 THEN Blame(reg, s, CVal(c, 1)) ELSE BlameFieldList(reg, FieldsOf(d), c)
         [] d.t = "none" -> NoPath
         [] OTHER -> IF CLen(c) = 1 THEN Blame(reg, s, CVal(c, 1)) ELSE NoPath

BlameAsIs(reg, id, c) ==
    LET d == Ty(reg, id)
        one == c.k = "unnamed" /\ Len(c.vs) = 1
        \* an item of a list has a position, whether it has a name or not
        items(i) == UNION {LET ps == Blame(reg, i, CVal(c, j)) IN Under(LocOf(c, j), ps) \cup Under(LIdx(j - 1), ps) : j \in 1..CLen(c)}
    IN CASE d.t \in {"comp", "tup"} ->
                LET fs == FieldsOf(d) IN
                IF one /\ Len(fs) = 1 /\ ~fs[1].h THEN Blame(reg, fs[1].i, c.vs[1]) ELSE BlameHelper(reg, id, c)
         [] d.t = "seq" -> items(d.i)
         [] d.t = "arr" -> IF CLen(c) # d.n THEN NoPath ELSE items(d.i)
         [] d.t = "bits" -> UNION {{<<LocOf(c, j)>>, <<LIdx(j - 1)>>} : j \in {k \in 1..CLen(c) : BitOf(CVal(c, k)) = <<>>}}
         [] OTHER -> IF CLen(c) = 1 THEN Blame(reg, id, CVal(c, 1)) ELSE NoPath

\* a 256-bit integer is encoded as its 32 bytes
BlameBytes(reg, id, v) ==
    LET d == Ty(reg, id)
        each(i) == {<<LIdx(j - 1)>> : j \in {k \in 1..32 : ~EncNum(reg, i, [neg |-> FALSE, mag |-> NatOf(v.w[k])]).ok}}
    IN CASE d.t = "arr" -> IF d.n = 32 THEN each(d.i) ELSE NoPath
         [] d.t = "seq" -> each(d.i)
         [] d.t = "tup" /\ Len(d.is) = 1 -> Blame(reg, d.is[1], v)
         [] d.t = "comp" /\ Len(d.fs) = 1 -> Blame(reg, d.fs[1].i, v)
         [] OTHER -> NoPath

\* {} if and only if the value can be encoded
Blame(reg, id, v) ==
    IF Enc(reg, id, v).ok THEN {}
    ELSE CASE IsComposite(v) -> BlameAsIs(reg, id, v)
           [] v.k = "var" ->
                LET d == Ty(reg, Skip1(reg, id, FALSE))
                    hits == SelectSeq(d.vs, LAMBDA w : w.n = v.n)
                IN IF d.t # "var" THEN NoPath ELSE IF hits = <<>> THEN NoPath ELSE BlameFieldList(reg, hits[1].fs, v.c)
           [] v.k \in {"u256", "i256"} -> BlameBytes(reg, id, v)
           [] OTHER -> NoPath

(***************************************************************************)
(* The parts of a value a path leads to, where it may pass over layers     *)
(* that hold one value only.                                               *)
(***************************************************************************)
RECURSIVE Led(_, _)
LedC(c, p) ==
    LET l == Head(p) IN
    (IF CLen(c) = 1 THEN Led(CVal(c, 1), p) ELSE {}) \cup
    (IF l.k = "i" THEN (IF l.i < CLen(c) THEN Led(CVal(c, l.i + 1), Tail(p)) ELSE {})
     ELSE IF c.k = "named" THEN UNION {IF c.fs[j].n = l.n THEN Led(c.fs[j].v, Tail(p)) ELSE {} : j \in 1..Len(c.fs)} ELSE {})
Led(v, p) ==
    IF p = <<>> THEN {v}
    ELSE IF IsComposite(v) THEN LedC(v, p)
    ELSE IF v.k = "var" THEN LedC(v.c, p)
    ELSE IF v.k \in {"u256", "i256"} /\ Len(p) = 1 /\ p[1].k = "i" /\ p[1].i < 32 THEN {v}
    ELSE {}

(***************************************************************************)
(* What a failing call may report: locations in either order.              *)
(***************************************************************************)
BlameFields(reg, fs, v) == IF IsComposite(v) THEN BlameFieldList(reg, fs, v) ELSE NoPath
Blames(ps, path) == path \in ps \/ Reverse(path) \in ps
=============================================================================
