------------------------------ MODULE MCScale ------------------------------
(***************************************************************************)
(* The SCALE laws on the specification itself, over the bounded universe.  *)
(* One behaviour per type and input: the type is picked, then the input.          *)
(***************************************************************************)
EXTENDS Universe, IOUtils

CONSTANTS Mode,       \* which inputs: "bytes", "vals", "derived", "any", "bits"
          Deep        \* length of the byte strings / richness of the values

VARIABLES ty, x,
          in        \* has the input been chosen?
vars == <<ty, x, in>>

Bytes == Strings(SmallBytes, Deep)
Inputs(i) ==
    CASE Mode = "bytes" -> Bytes
      [] Mode = "vals" -> Inh(Zoo, i, 8 * Deep, 2)
      [] Mode = "derived" -> UNION {[exact : {v}, w : Derived(Zoo, i, v)] : v \in Inh(Zoo, i, 3 * Deep, 2)}
      [] Mode = "aligned" -> UNION {Aligned(Zoo, i, v) : v \in Inh(Zoo, i, 6 * Deep, 2)}
      [] Mode = "bits" -> UNION {[1..k -> BOOLEAN] : k \in 0..(4 * Deep)} \cup SampleBits
      [] Mode = "cuts" -> UNION {LET b == ExactEnc(Zoo, i, v).b IN {[b |-> SubSeq(b, 1, n), all |-> b] : n \in 0..(Len(b) - 1)} : v \in Inh(Zoo, i, 3 * Deep, 2)}
      [] Mode = "blame" -> UNION {Spoiled(v) : v \in Inh(Zoo, i, 4 * Deep, 2)}
      [] Mode = "gonebytes" -> [g : Reach(Zoo, i), b : Bytes]
      [] Mode = "gonevals" -> [g : Reach(Zoo, i), v : (IF Deep = 1 THEN Any1 ELSE Any2) \cup (LET S == Inh(Zoo, i, 3 * Deep, 2) IN S \cup (IF PlainType(Zoo, i) THEN UNION {Derived(Zoo, i, v) \cup Spoiled(v) : v \in S} ELSE {}))]
      [] Mode = "any" -> IF Deep = 1 THEN Any1 ELSE Any2
Init == /\ ty \in (IF Mode \in {"vals", "derived", "cuts", "blame"} THEN ZooPlain ELSE IF Mode = "aligned" THEN ZooAligned ELSE IF Mode = "bits" THEN {54} ELSE ZooIds)
        /\ x = <<>> /\ in = FALSE
Choose == ~in /\ in' = TRUE /\ x' \in Inputs(ty) /\ UNCHANGED ty
Next == Choose
Spec == Init /\ [][Next]_vars

D == Dec(Zoo, ty, x)

\* C01: decoding then encoding is the identity on bytes (canonical padding), for plain types
C01Bytes == (in /\ Mode = "bytes" /\ PlainType(Zoo, ty) /\ D.ok) => LET e == ExactEnc(Zoo, ty, D.v)
                used == SubSeq(x, 1, D.p - 1) IN
            /\ e.ok /\ Enc(Zoo, ty, D.v) = e
            /\ e.b # used => /\ Len(e.b) = Len(used) /\ Dec(Zoo, ty, e.b).v = D.v
                             /\ \E i \in Reach(Zoo, ty) : Ty(Zoo, i).t = "bits"
C01Vals == (in /\ Mode = "vals") =>
    LET e == ExactEnc(Zoo, ty, x) IN
    /\ e.ok
    /\ LET d == Dec(Zoo, ty, e.b) IN d.ok /\ StripCtx(d.v) = x /\ d.p = Len(e.b) + 1
\* C02: the library's algorithm gives the exact encoding
C02Vals == (in /\ Mode = "vals") => Enc(Zoo, ty, x) = ExactEnc(Zoo, ty, x)
\* C03: contexts name the types, and the shape is the type's
RECURSIVE Shaped(_, _)
ShapedFields(fs, c) == /\ (c.k = "named") = AllNamed(fs) /\ CLen(c) = Len(fs)
                       /\ \A j \in 1..Len(fs) : Shaped(fs[j].i, CVal(c, j)) /\ (c.k = "named" => c.fs[j].n = fs[j].n)
Shaped(id, v) == LET d == Ty(Zoo, id) IN
    IF d.t = "compact" THEN Shaped(d.i, v)
    ELSE v.ctx = id /\
         CASE d.t = "prim" -> v.k = (IF UWidth(d.p) > 0 THEN "u128" ELSE IF IWidth(d.p) > 0 THEN "i128" ELSE d.p)
              [] d.t = "bits" -> v.k = "bits"
              [] d.t = "seq" -> v.k = "unnamed" /\ \A j \in 1..CLen(v) : Shaped(d.i, CVal(v, j))
              [] d.t = "arr" -> v.k = "unnamed" /\ CLen(v) = d.n /\ \A j \in 1..CLen(v) : Shaped(d.i, CVal(v, j))
              [] d.t \in {"tup", "comp"} -> IsComposite(v) /\ ShapedFields(FieldsOf(d), v)
              [] d.t = "var" -> v.k = "var" /\ \E k \in 1..Len(d.vs) : d.vs[k].n = v.n /\ ShapedFields(d.vs[k].fs, v.c)
              [] OTHER -> FALSE
C03Shape == (in /\ Mode = "bytes" /\ D.ok) => Shaped(ty, D.v)
\* C04: what follows does not matter, and decoding stops right after the value
C04Suffix == (in /\ Mode = "bytes" /\ ~Has256Type(Zoo, ty)) =>
    \A s \in {<<0>>, <<1, 255>>} : D.ok => Dec(Zoo, ty, x \o s) = D
\* C05: what decodes is canonical: nothing else encodes to those bytes, and every proper prefix of a value fails
C05Prefix == (in /\ Mode = "bytes" /\ D.ok) => \A n \in 0..(D.p - 2) : ~Dec(Zoo, ty, SubSeq(x, 1, n)).ok
\* C07: values with wrappers dropped or added encode as the exact one.  The one exception: a wrapper added around the
\* value of a sequence can itself be read as a sequence of one item, and that reading comes first.
C07Derived == (in /\ Mode = "derived") =>
    LET e == ExactEnc(Zoo, ty, x.exact) m == Enc(Zoo, ty, x.w) IN
    \/ m = e
    \/ m.ok /\ (\E i \in Reach(Zoo, ty) : Ty(Zoo, i).t = "seq") /\ Represents(Zoo, x.w, Dec(Zoo, ty, m.b).v)
\* C08: fields by name or by position
C08Align == (in /\ Mode = "aligned") =>
    LET m == Enc(Zoo, ty, x.w) e == ExactEnc(Zoo, ty, x.exact) IN
    CASE x.how \in {"same", "perm", "surplus", "unnamed"} -> m = e
      [] x.how = "none" -> ~m.ok
      [] OTHER -> TRUE
\* C14
C14Bits == (in /\ Mode = "bits") =>
    \A st \in {"u8", "u16", "u32", "u64"}, or \in {"lsb", "msb"} :
        LET e == EncBitsTo(x, st, or) d == DecBits(e, 1, st, or) IN
        /\ d.ok /\ d.bits = x /\ d.p = Len(e) + 1
        /\ (Len(e) - Len(EncCompact(NatOf(Len(x))))) % (BWidth(st) \div 8) = 0
        \* the k-th word holds bits k * w .. k * w + w - 1, the first one lowest (lsb) or highest (msb)
        /\ \A i \in 1..Len(x) :
              LET w == BWidth(st)
                  word == SubSeq(e, Len(EncCompact(NatOf(Len(x)))) + 1 + ((i - 1) \div w) * (w \div 8), Len(EncCompact(NatOf(Len(x)))) + ((i - 1) \div w) * (w \div 8) + (w \div 8))
                  sh == IF or = "lsb" THEN (i - 1) % w ELSE w - 1 - ((i - 1) % w)
              IN x[i] = ((word[(sh \div 8) + 1] \div (2 ^ (sh % 8))) % 2 = 1)
        /\ \A c \in {[j \in 1..Len(x) |-> VBool(x[j], 0)], [j \in 1..Len(x) |-> VU(IF x[j] THEN <<1>> ELSE <<>>, 0)]} :
              EncValsAsBits(c, BitsT(st, or)) = Good(e)
\* C09: an encoding that succeeds says what the value says
C09Sound == (in /\ Mode = "any" /\ ~Has256Type(Zoo, ty)) =>
    LET e == Enc(Zoo, ty, x) IN e.ok =>
            LET d == Dec(Zoo, ty, e.b) IN d.ok /\ d.p = Len(e.b) + 1 /\ Represents(Zoo, x, d.v)
C09Derived == (in /\ Mode = "derived") =>
    LET e == Enc(Zoo, ty, x.w) IN e.ok =>
            LET d == Dec(Zoo, ty, e.b) IN d.ok /\ d.p = Len(e.b) + 1 /\ Represents(Zoo, x.w, d.v)
\* C11: a recogniser that builds nothing (like the plain decoder it has no path or partial value) accepts the same
\* inputs and stops in the same place
RECURSIVE Ends(_, _, _, _), EndsAll(_, _, _, _)
Ends(id, b, pos, compact) ==      \* 0 if it does not parse
    LET d == Ty(Zoo, id)
        upto(p) == IF p - 1 <= Len(b) THEN p ELSE 0
        cpt(w) == LET c == DecCompact(b, pos, w) IN IF c.ok THEN pos + c.n ELSE 0
    IN CASE d.t = "none" -> 0
         [] d.t = "prim" /\ compact -> IF UWidth(d.p) > 0 THEN cpt(UWidth(d.p)) ELSE 0
         [] d.t = "prim" /\ UWidth(d.p) > 0 -> upto(pos + UWidth(d.p))
         [] d.t = "prim" /\ IWidth(d.p) > 0 -> upto(pos + IWidth(d.p))
         [] d.t = "prim" -> LET r == DecPrim(d.p, id, b, pos, FALSE) IN IF r.ok THEN r.p ELSE 0
         [] d.t = "compact" -> Ends(d.i, b, pos, TRUE)
         [] d.t \in {"tup", "comp"} -> LET fs == FieldsOf(d) IN
               IF compact /\ Len(fs) # 1 THEN 0 ELSE EndsAll([j \in 1..Len(fs) |-> fs[j].i], b, pos, compact)
         [] compact -> 0
         [] d.t = "arr" -> EndsAll([j \in 1..d.n |-> d.i], b, pos, FALSE)
         [] d.t = "seq" -> LET c == DecCompact(b, pos, 8) IN
               IF ~c.ok \/ ~FitsInt(c.m) THEN 0
               ELSE IF IntOf(c.m) > 64 THEN (LET r == DecAt(Zoo, id, b, pos, FALSE) IN IF r.ok THEN r.p ELSE 0)
               ELSE EndsAll([j \in 1..IntOf(c.m) |-> d.i], b, pos + c.n, FALSE)
         [] d.t = "bits" -> LET c == DecCompact(b, pos, 4) IN
               IF ~c.ok \/ ~FitsInt(c.m) THEN 0
               ELSE LET by == BWidth(d.st) \div 8 IN
                    IF IntOf(c.m) > 100000 THEN 0 ELSE upto(pos + c.n + ((IntOf(c.m) + 8 * by - 1) \div (8 * by)) * by)
         [] d.t = "var" -> IF pos > Len(b) THEN 0
                           ELSE LET hits == SelectSeq(d.vs, LAMBDA w : w.x = b[pos]) IN
                                IF hits = <<>> THEN 0
                                ELSE EndsAll([j \in 1..Len(hits[1].fs) |-> hits[1].fs[j].i], b, pos + 1, FALSE)
EndsAll(ids, b, pos, compact) ==
    IF ids = <<>> THEN pos
    ELSE LET p == Ends(Head(ids), b, pos, compact) IN IF p = 0 THEN 0 ELSE EndsAll(Tail(ids), b, p, compact)
C11Agree == (in /\ Mode = "bytes" /\ ~HasZeroSizedSeq(Zoo, ty)) =>
    LET e == Ends(ty, x, 1, FALSE) IN D.ok = (e # 0) /\ (D.ok => D.p = e)
\* C12: the path of a failure leads to the item that fails, and the partial value holds what decodes before it
RECURSIVE Resolve(_, _, _)
StepInto(d, seg, nm) ==   \* type ids a segment can lead to
    CASE seg.seg = "idx" -> IF d.t \in {"seq", "arr"} THEN {d.i}
                            ELSE IF d.t \in {"tup", "comp"} /\ ~AllNamed(FieldsOf(d)) /\ seg.i < Len(FieldsOf(d)) THEN {FieldsOf(d)[seg.i + 1].i} ELSE {}
      [] seg.seg = "field" -> IF d.t = "comp" THEN {d.fs[j].i : j \in {k \in 1..Len(d.fs) : d.fs[k].n = seg.n}} ELSE {}
      [] OTHER -> {}
Resolve(id, at, j) ==
    LET d == Ty(Zoo, id) IN
    IF j > Len(at) THEN {id}
    ELSE IF d.t = "compact" THEN Resolve(d.i, at, j)
    ELSE IF d.t = "var" THEN
        IF at[j].seg # "variant" \/ j = Len(at) THEN {}
        ELSE UNION {IF d.vs[k].n = at[j].n THEN UNION {Resolve(i, at, j + 2) : i \in StepInto(Comp(d.vs[k].fs), at[j + 1], <<>>)} ELSE {} : k \in 1..Len(d.vs)}
    ELSE UNION {Resolve(i, at, j + 1) : i \in StepInto(d, at[j], <<>>)}
C12Path == (in /\ Mode = "bytes" /\ ~HasZeroSizedSeq(Zoo, ty) /\ ~D.ok /\ ~D.top) => /\ Resolve(ty, D.at, 1) # {}
                         /\ (D.part.ctx = ty \/ Ty(Zoo, ty).t = "compact")
\* an encoding cut short: the path leads to the item the end fell into, and the partial value is what there is of the
\* whole value before it
RECURSIVE Initial(_, _, _, _)
InitialC(p, c, at, j) ==
    /\ p.k = c.k /\ j <= Len(at) /\ CLen(p) <= CLen(c)
    /\ LET k == IF at[j].seg = "idx" THEN at[j].i + 1 ELSE CHOOSE q \in 1..CLen(c) : c.k = "named" /\ c.fs[q].n = at[j].n
           inside == j < Len(at)                       \* some of the item itself is there
       IN /\ CLen(p) = (IF inside THEN k ELSE k - 1) /\ k <= CLen(c)
          /\ \A q \in 1..(k - 1) : CVal(p, q) = CVal(c, q)
          /\ inside => Initial(CVal(p, k), CVal(c, k), at, j + 1)
          /\ c.k = "named" => \A q \in 1..CLen(p) : p.fs[q].n = c.fs[q].n
Initial(p, v, at, j) ==
    /\ p.k = v.k /\ p.ctx = v.ctx
    /\ IF v.k = "var" THEN p.n = v.n /\ at[j] = SegVar(v.n) /\ InitialC(p.c, v.c, at, j + 1) ELSE IsComposite(v) /\ InitialC(p, v, at, j)
C12Part == (in /\ Mode = "cuts") =>
    LET d == Dec(Zoo, ty, x.b) w == Dec(Zoo, ty, x.all) IN
    /\ w.ok /\ ~d.ok
    /\ ~d.top => Initial(d.part, w.v, d.at, 1)
\* C13: a field list is the struct
C13Fields == (in /\ Mode = "vals") =>
    LET d == Ty(Zoo, ty) IN
    IF d.t \notin {"comp", "tup"} THEN TRUE ELSE
        LET fs == FieldsOf(d) e == EncFieldList(Zoo, fs, x) IN
        /\ e = ExactEnc(Zoo, ty, x)
        /\ LET r == DecFieldList(Zoo, fs, e.b) IN r.ok /\ SetCtxC(r.c, 0) = (IF x.k = "named" THEN CNamed(x.fs) ELSE CUnnamed(x.vs))

\* C32: without some of the types, what still decodes decodes to the same, what does not decode with them does not
\* without them, and what still encodes is read back, with all types, as the same data
C32Dec == (in /\ Mode = "gonebytes") =>
    LET m == Dec(Minus(Zoo, {x.g}), ty, x.b) IN m.ok => m = Dec(Zoo, ty, x.b)
C32Enc == (in /\ Mode = "gonevals" /\ ~Has256Type(Zoo, ty)) =>
    LET m == Enc(Minus(Zoo, {x.g}), ty, x.v) IN m.ok => Enc(Zoo, ty, x.v).ok /\ SaysSame(Zoo, ty, x.v, m.b)

\* C31: there is a part to blame just when encoding fails, and its path leads into the value
C31Leads == (in /\ Mode \in {"any", "blame"}) =>
    LET ps == Blame(Zoo, ty, x) IN
    /\ (ps = {}) = Enc(Zoo, ty, x).ok
    /\ \A p \in ps : Led(x, p) # {}
\* with one part that fits nowhere, the part blamed is that part or what holds it
C31Holds == (in /\ Mode = "blame") =>
    LET ps == Blame(Zoo, ty, x) IN ps # {} /\ \A p \in ps : \E y \in Led(x, p) : Spoils(y)
=============================================================================
