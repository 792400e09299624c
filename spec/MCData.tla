------------------------------- MODULE MCData -------------------------------
(* The laws of conversions, lookups and contexts, on the specification.     *)
EXTENDS DataUniverse, IOUtils

CONSTANTS Mode, Deep

VARIABLES g, x, in
vars == <<g, x, in>>
Groups == CASE Mode = "data" -> PlainTypes
            [] Mode = "ints" -> UTypes \cup ITypes
            [] OTHER -> {0}
Inputs ==
    CASE Mode = "vals" -> DataVals(Deep)
      [] Mode = "data" -> DataOf(g, Deep)
      [] Mode = "ints" -> EdgeIntVals
      [] Mode = "trees" -> Trees(Deep)
      [] Mode = "paths" -> PathVals \X Paths(Deep)
      [] Mode = "ctx" -> {NumberFrom(v, 1) : v \in PathVals \cup Shallow \cup (IF Deep > 1 THEN Deep2 ELSE {})}
Init == g \in Groups /\ x = <<>> /\ in = FALSE
Choose == ~in /\ in' = TRUE /\ x' \in Inputs /\ UNCHANGED g
Next == Choose
Spec == Init /\ [][Next]_vars

Here(m) == in /\ Mode = m
RECURSIVE HasKind(_, _)
HasKind(v, ks) == v.k \in ks \/ (IsComposite(v) /\ \E i \in 1..CLen(v) : HasKind(CVal(v, i), ks))
                  \/ (v.k = "var" /\ \E i \in 1..CLen(v.c) : HasKind(CVal(v.c, i), ks))

\* C23: reading back a value, or the part that holds it, gives it
C23Same == (Here("vals") /\ ~Has256(x) /\ ~Marked(x)) =>
    /\ FA("value", View(x), TRUE) = OkR(StripCtx(x))
    /\ IsComposite(x) => FA("comp", View(x), TRUE) = OkR(StripCtx(x))
    /\ x.k = "var" => FA("variant", View(x), TRUE) = OkR(StripCtx(x))
    /\ IsPrim(x) => FA("prim", View(x), TRUE) = OkR(StripCtx(x))
\* writing a value as a value gives it, but for variants and bits, whose form can be read as what they were
C23Form == (Here("vals") /\ ~Has256(x) /\ ~Marked(x)) =>
    LET r == ToVal(SerTree(x)) IN
    /\ r.r = "ok" /\ r.x.ctx = 0
    /\ ~HasKind(x, {"var", "bits"}) => r.x = StripCtx(x)
    /\ (x.k = "var" /\ ~HasKind(VUnnamed(CVals(x.c), 0), {"var", "bits"})) => FA("variant", View(r.x), TRUE) = OkR(StripCtx(x))
    /\ x.k = "bits" => FA("value", View(r.x), TRUE) = OkR(StripCtx(x))
\* C24: what JSON says
RECURSIVE JsonAble(_)
JsonAble(v) == CASE v.k \in {"bool", "str", "bits"} -> TRUE
                 [] v.k = "u128" -> FitsU(v.u, 8)
                 [] v.k = "i128" -> IF v.neg THEN FitsI(IntOfV(v), 8) ELSE FitsU(v.i, 8)
                 [] IsComposite(v) -> \A i \in 1..CLen(v) : JsonAble(CVal(v, i))
                 [] OTHER -> FALSE
C24Json == (Here("vals") /\ JsonAble(x) /\ ~Marked(x)) => FromJson(x) = OkR(StripCtx(Unsign(x)))
\* every part of the text is a part of the text of the whole
C24Parts == (Here("vals") /\ IsComposite(x)) => \A i \in 1..CLen(x) :
    LET t == JsonText(SerTree(x)) p == JsonText(SerTree(CVal(x, i))) IN \E j \in 1..Len(t) : SubSeq(t, j, j + Len(p) - 1) = p
\* reading self-describing data gives the value that writing it gives
RECURSIVE Direct(_)
Direct(d) == CASE d.k \in {"nstruct", "nvar", "val", "fail"} -> FALSE
               [] IsSeq(d) \/ d.k = "tvar" -> \A i \in 1..Len(d.xs) : Direct(d.xs[i])
               [] IsMap(d) \/ d.k = "svar" -> LET es == IF d.k = "svar" THEN Entries([k |-> "struct", fs |-> d.fs]) ELSE Entries(d) IN
                    \A i \in 1..Len(es) : es[i].key.k \in {"str", "char"} /\ Direct(es[i].val) /\ (es[i].key.k = "str" => es[i].key.s # Ident)
               [] d.k = "some" -> Direct(d.x)
               [] OTHER -> TRUE
C24Read == (Here("trees") /\ Direct(x)) =>
    LET a == FA("value", x, FALSE) b == ToVal(x) IN a.r = b.r /\ (a.r = "ok" => a.x = b.x)
\* a part is read wherever a value of its kind is
C24Kinds == (Here("trees") /\ Plain(x)) =>
    LET r == FA("value", x, FALSE) IN
    /\ (r.r = "ok" /\ x.k \in {"uvar", "nvar", "tvar", "svar", "none", "some"}) => FA("variant", x, FALSE) = r
    /\ (r.r = "ok" /\ (IsSeq(x) \/ x.k \in {"bytes", "unit", "ustruct"})) => FA("comp", x, FALSE) = r
    /\ (r.r = "ok" /\ x.k \in {"bool", "int", "char", "str"}) => FA("prim", x, FALSE) = r /\ FA("comp", x, FALSE).r = "err"
    /\ FA("bits", x, FALSE).r = "ok" => IsSeq(x) /\ FA("value", [k |-> "map", es |-> <<[key |-> DStr(Ident), val |-> x]>>], FALSE).r = "ok"

\* C25: data of types without newtypes come back
C25Round == Here("data") =>
    LET v == ToVal(x) IN v.r = "ok" /\ De(g, v.x, TRUE) = OkR(x) /\ (g.t # "opt" => De(g, v.x, FALSE) = OkR(x))
\* the order of the fields of a struct, and others among them, do not matter
C25Named == (Here("data") /\ g.t = "struct") =>
    LET v == ToVal(x).x IN
    /\ De(g, VNamed(Rotated(v.fs), 0), TRUE) = OkR(x)
    /\ De(g, VNamed(<<[n |-> <<122>>, v |-> Flag(TRUE)]>> \o v.fs, 0), TRUE) = OkR(x)
    /\ De(g, VUnnamed(CVals(v), 0), TRUE) = OkR(x)
    /\ v.fs # <<>> => De(g, VNamed(v.fs \o <<v.fs[1]>>, 0), TRUE).r = "err"
\* integers are read by value, whatever their class
C25Ints == Here("ints") =>
    LET r == De([t |-> g], x, TRUE) IN
    IF FitsTy(IntOfNode(x), g) THEN r = OkR(DInt(g, IntOfNode(x))) ELSE r.r = "err"

\* C26: a path is looked up step by step; every value in a composite is at its index; the first of a name is found
C26Fold == Here("paths") =>
    LET v == x[1] p == x[2] r == AtPath(v, p) IN
    \A k \in 0..Len(p) : LET m == AtPath(v, SubSeq(p, 1, k)) IN r = IF m = <<>> THEN <<>> ELSE AtPath(m[1], SubSeq(p, k + 1, Len(p)))
C26Index == (Here("paths") /\ Len(x[2]) = 1) =>
    LET v == x[1] s == x[2][1] r == AtPath(v, x[2]) c == IF v.k = "var" THEN v.c ELSE v IN
    IF ~IsComposite(v) /\ v.k # "var" THEN r = <<>>
    ELSE IF s.k = "i" THEN (r # <<>> <=> FitsInt(s.i) /\ IntOf(s.i) < CLen(c)) /\ (r # <<>> => r[1] = CVals(c)[IntOf(s.i) + 1])
    ELSE (r # <<>> <=> c.k = "named" /\ \E i \in 1..Len(c.fs) : c.fs[i].n = s.s)
         /\ (r # <<>> => \E i \in 1..Len(c.fs) : c.fs[i] = [n |-> s.s, v |-> r[1]] /\ \A j \in 1..(i - 1) : c.fs[j].n # s.s)

\* C27: the judgement accepts a numbering of the nodes in any order, and nothing that misses or repeats one
Ev27(new, log) == [op |-> "mapctx", what |-> "value", v |-> x, out |-> [r |-> "ok", v |-> new, log |-> log]]
C27Judge == Here("ctx") =>
    LET n == NodeCount(x) up == NumberFrom(x, 1) IN
    /\ Contexts(x) = [i \in 1..n |-> i]
    /\ JudgeMapCtx("C27", Ev27(up, Contexts(x))) = "ok"
    /\ JudgeMapCtx("C27", Ev27(up, Tail(Contexts(x)))) = "bad"
    /\ n > 1 => JudgeMapCtx("C27", Ev27(up, Rotated(Contexts(x)))) = "bad" /\ JudgeMapCtx("C27", Ev27(NumberFrom(x, 2), Contexts(x))) = "bad"
    /\ StripCtx(up) = StripCtx(x) /\ ToSet(Contexts(StripCtx(x))) = {0}
\* C28: a primitive is one thing; what is built from bytes is their list
C28Scalar == Here("vals") => LET s == Scalars(x) IN
    /\ Cardinality({f \in DOMAIN s : s[f].has}) = IF x.k \in {"bool", "char", "u128", "i128", "str"} THEN 1 ELSE 0
    /\ \A f \in DOMAIN s : s[f].has => ToVal(s[f].x) = OkR(StripCtx(x))
=============================================================================
