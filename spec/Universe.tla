------------------------------ MODULE Universe ------------------------------
(***************************************************************************)
(* The bounded universe in which the SCALE laws are model checked and from *)
(* which exhaustive calls are generated for the real library: a registry   *)
(* with every kind of type and their combinations two and three deep, and  *)
(* for each type the byte strings and values worth trying.                 *)
(***************************************************************************)
EXTENDS Laws, FiniteSets, FiniteSetsExt

Prim(p) == [t |-> "prim", p |-> p]
Cpt(i) == [t |-> "compact", i |-> i]
Sq(i) == [t |-> "seq", i |-> i]
Arr(n, i) == [t |-> "arr", n |-> n, i |-> i]
Tup(is) == [t |-> "tup", is |-> is]
F(n, i) == [h |-> TRUE, n |-> n, i |-> i]
U(i) == [h |-> FALSE, n |-> <<>>, i |-> i]
Comp(fs) == [t |-> "comp", fs |-> fs]
VarT(vs) == [t |-> "var", vs |-> vs]
Vr(n, x, fs) == [n |-> n, x |-> x, fs |-> fs]
BitsT(st, or) == [t |-> "bits", st |-> st, or |-> or]
a_ == <<97>>
b_ == <<98>>
c_ == <<99>>
ab_ == <<97, 98>>
D_(n) == <<48 + n>>
A_ == <<65>>
B_ == <<66>>
C_ == <<67>>

\* position in this sequence - 1 is the type id
Zoo == <<
  (* 0 *) Prim("bool"), Prim("u8"), Prim("u16"), Prim("u32"), Prim("u64"), Prim("u128"),
  (* 6 *) Prim("i8"), Prim("i16"), Prim("i32"), Prim("i64"), Prim("i128"), Prim("str"),
  (* 12 *) Prim("char"), Prim("u256"), Prim("i256"),
  (* 15 *) Cpt(1), Cpt(2), Cpt(3), Cpt(4), Cpt(5),
  (* 20 *) Sq(1), Sq(0), Sq(2), Sq(11), Sq(20),
  (* 25 *) Arr(0, 1), Arr(1, 1), Arr(2, 1), Arr(3, 0), Arr(1, 20),
  (* 30 *) Tup(<<>>), Tup(<<1>>), Tup(<<0, 1>>), Tup(<<1, 1, 1>>), Tup(<<20>>),
  (* 35 *) Comp(<<>>), Comp(<<U(1)>>), Comp(<<F(a_, 1)>>), Comp(<<U(0), U(1)>>), Comp(<<F(a_, 0), F(b_, 1)>>),
  (* 40 *) Comp(<<F(a_, 1), U(1)>>), Comp(<<U(20)>>), Comp(<<F(a_, 20)>>), Comp(<<U(36)>>), Comp(<<U(41)>>),
  (* 45 *) Comp(<<F(a_, 37)>>), Comp(<<F(b_, 39), F(a_, 36)>>), Tup(<<37>>), Tup(<<39, 31>>), Arr(1, 37),
  (* 50 *) VarT(<<Vr(A_, 0, <<>>)>>), VarT(<<Vr(A_, 1, <<>>), Vr(B_, 0, <<U(1)>>), Vr(C_, 4, <<F(a_, 1), F(b_, 0)>>)>>),
  (* 52 *) VarT(<<Vr(A_, 0, <<>>), Vr(B_, 1, <<U(0), U(20)>>), Vr(C_, 255, <<F(a_, 51)>>)>>),
  (* 53 *) VarT(<<Vr(A_, 5, <<U(53)>>), Vr(B_, 0, <<>>)>>),
  (* 54 *) BitsT("u8", "lsb"), BitsT("u8", "msb"), BitsT("u16", "lsb"), BitsT("u16", "msb"),
  (* 58 *) BitsT("u32", "lsb"), BitsT("u32", "msb"), BitsT("u64", "lsb"), BitsT("u64", "msb"),
  (* 62 *) Cpt(36), Cpt(37), Cpt(31), Cpt(43), Cpt(0), Cpt(38), Cpt(15), Cpt(30),
  (* 70 *) Sq(36), Sq(39), Sq(51), Sq(15), Sq(54), Sq(26), Comp(<<U(51)>>), Comp(<<F(a_, 51)>>),
  (* 78 *) Comp(<<U(54)>>), Comp(<<U(15)>>), Comp(<<F(a_, 16), F(b_, 54)>>), Comp(<<U(30)>>), Comp(<<U(35)>>),
  (* 83 *) Comp(<<F(a_, 0), F(b_, 84)>>), Sq(83), Tup(<<20, 20>>), Comp(<<F(a_, 11), F(b_, 7)>>), Tup(<<41>>),
  (* 88 *) Comp(<<U(87)>>), Sq(34), Comp(<<F(a_, 44)>>), Tup(<<51, 54>>), Comp(<<F(c_, 0), F(b_, 20), F(a_, 6)>>),
  (* 93 *) Arr(2, 39), Sq(93), Tup(<<49>>), Comp(<<U(26)>>), Comp(<<F(a_, 96)>>), Sq(200), Comp(<<F(a_, 32), U(20)>>),
  \* nothing at the end, in the middle, and everywhere
  (* 100 *) Comp(<<U(1), U(1), U(30)>>), VarT(<<Vr(A_, 3, <<U(1), U(1), U(25), U(30)>>), Vr(B_, 4, <<F(a_, 1), F(b_, 30)>>)>>),
  (* 102 *) Tup(<<1, 1, 35>>), Tup(<<30, 1, 30>>), Arr(3, 100), Comp(<<U(30), U(35)>>), Arr(2, 30),
  \* names that are easily taken for one another
  (* 107 *) Comp(<<F(ab_, 1), F(b_, 0), F(a_, 1)>>), Comp(<<F(D_(1), 1), F(D_(0), 0)>>), Comp(<<F(<<>>, 1), F(a_, 0)>>),
  (* 110 *) VarT(<<Vr(<<>>, 7, <<F(D_(0), 1), F(D_(1), 0)>>), Vr(a_, 8, <<F(A_, 0), F(a_, 1)>>), Vr(A_, 9, <<F(a_, 0), F(A_, 1)>>), Vr(ab_, 10, <<F(b_, 1), F(ab_, 0)>>)>>),
  (* 111 *) Comp(<<F(ab_, 107), F(b_, 0)>>), Comp(<<F(b_, 107), F(ab_, 107)>>), Comp(<<F(ab_, 107), F(b_, 107), F(a_, 1)>>)
>>
ZooIds == 0..(Len(Zoo) - 1)
ZooPlain == {i \in ZooIds : PlainType(Zoo, i) /\ ~(200 \in Reach(Zoo, i))}

SmallBytes == {0, 1, 2, 3, 4, 5, 8, 12, 128, 252, 254, 255}
Strings(S, n) == UNION {[1..k -> S] : k \in 0..n}

(***************************************************************************)
(* Values of a type: a set of representatives.  n bounds the choices per   *)
(* leaf, dep the depth of recursive types.                                 *)
(***************************************************************************)
Ints(w) == LET top == [i \in 1..w |-> 255] IN
    {<<>>, <<1>>, <<63>>, <<64>>, <<255>>, top} \cup
    (IF w > 1 THEN {<<255, 63>>, <<0, 64>>, <<0, 1>>} ELSE {}) \cup
    (IF w > 3 THEN {<<255, 255, 255, 63>>, <<0, 0, 0, 64>>, <<0, 0, 1>>} ELSE {}) \cup
    (IF w > 4 THEN {<<0, 0, 0, 0, 1>>, <<1, 2, 3, 4, 5, 6>>} ELSE {}) \cup
    (IF w > 8 THEN {<<0, 0, 0, 0, 0, 0, 0, 0, 1>>} ELSE {})
SInts(w) == LET m == Zeros(w - 1) \o <<128>>
                p == [i \in 1..w |-> IF i = w THEN 127 ELSE 255] IN
    {[neg |-> FALSE, mag |-> <<>>], [neg |-> FALSE, mag |-> <<1>>], [neg |-> TRUE, mag |-> <<1>>],
     [neg |-> TRUE, mag |-> m], [neg |-> FALSE, mag |-> p]}
SampleStrs == {<<>>, <<97>>, <<233, 98>>, <<128512>>}
BitStr(n) == {[i \in 1..n |-> (i % 3) = 1], [i \in 1..n |-> i = n], [i \in 1..n |-> TRUE]}
SampleBits == {<<>>} \cup UNION {BitStr(n) : n \in {1, 7, 8, 9, 16, 17, 33, 64, 65}}

TakeN(S, n) == IF Cardinality(S) <= n THEN S ELSE LET q == SetToSeq(S) IN {q[1 + ((k * Len(q)) \div n)] : k \in 0..(n - 1)}

RECURSIVE Inh(_, _, _, _)
Tuples(reg, ids, n, dep) == LET s(j) == Inh(reg, ids[j], n, dep) IN
    LET RECURSIVE T(_) T(j) == IF j > Len(ids) THEN {<<>>}
                               ELSE {<<x>> \o y : x \in s(j), y \in T(j + 1)} IN T(1)
InhFields(reg, fs, n, dep) ==
    LET ts == Tuples(reg, [j \in 1..Len(fs) |-> fs[j].i], IF Len(fs) > 2 THEN 2 ELSE IF Len(fs) > 1 THEN 3 ELSE n, dep) IN
    {IF AllNamed(fs) THEN CNamed([j \in 1..Len(fs) |-> [n |-> fs[j].n, v |-> t[j]]]) ELSE CUnnamed(t) : t \in ts}
Inh(reg, id, n, dep) ==
    LET d == Ty(reg, id) IN
    TakeN(
    CASE d.t = "prim" ->
           (CASE UWidth(d.p) > 0 -> {VU(m, 0) : m \in Ints(UWidth(d.p))}
              [] IWidth(d.p) > 0 -> {VI(x, 0) : x \in SInts(IWidth(d.p))}
              [] d.p = "bool" -> {VBool(TRUE, 0), VBool(FALSE, 0)}
              [] d.p = "str" -> {VStr(s, 0) : s \in SampleStrs}
              [] d.p = "char" -> {VChar(c, 0) : c \in {0, 97, 128512}}
              [] OTHER -> {})
      [] d.t = "none" -> {}
      [] d.t = "compact" -> IF CanCompact(reg, d.i) THEN Inh(reg, d.i, n, dep) ELSE {}
      [] d.t = "bits" -> {VBits(x, 0) : x \in SampleBits}
      [] d.t = "seq" -> IF dep = 0 THEN {VUnnamed(<<>>, 0)} ELSE
            {VUnnamed(t, 0) : t \in UNION {Tuples(reg, [j \in 1..k |-> d.i], IF k = 1 THEN n ELSE 2, dep - 1) : k \in 0..2}}
      [] d.t = "arr" -> {VUnnamed(t, 0) : t \in Tuples(reg, [j \in 1..d.n |-> d.i], 3, dep)}
      [] d.t \in {"tup", "comp"} -> {WithKind(c, 0) : c \in InhFields(reg, FieldsOf(d), n, dep)}
      [] d.t = "var" -> UNION {IF dep = 0 /\ Len(d.vs[k].fs) > 0 THEN {}
                               ELSE {VVar(d.vs[k].n, c, 0) : c \in InhFields(reg, d.vs[k].fs, n, dep - 1)} : k \in 1..Len(d.vs)},
    n)

(***************************************************************************)
(* Values in which wrappers are left out or added: the values derived from *)
(* an exact one.  Wraps: how the value may be dressed at a node.           *)
(***************************************************************************)
Wraps(v) == {v, VUnnamed(<<v>>, 0), VNamed(<<[n |-> c_, v |-> v]>>, 0)}
RECURSIVE Derived(_, _, _)
ProdSeq(ss) == LET RECURSIVE T(_) T(j) == IF j > Len(ss) THEN {<<>>} ELSE {<<x>> \o y : x \in ss[j], y \in T(j + 1)} IN T(1)
DerivedFields(reg, fs, c) ==
    LET opts == [j \in 1..Len(fs) |-> TakeN(Derived(reg, fs[j].i, CVal(c, j)), IF Len(fs) > 1 THEN 4 ELSE 12)] IN
    {IF c.k = "named" THEN [c EXCEPT !.fs = [j \in 1..Len(fs) |-> [n |-> c.fs[j].n, v |-> t[j]]]] ELSE [c EXCEPT !.vs = t]
        : t \in ProdSeq(opts)}
Derived(reg, id, v) ==
    LET d == Ty(reg, id)
        inner == CASE d.t \in {"tup", "comp"} -> DerivedFields(reg, FieldsOf(d), v)
                   [] d.t \in {"seq", "arr"} -> DerivedFields(reg, [j \in 1..Len(v.vs) |-> UField(d.i)], v)
                   [] d.t = "compact" -> Derived(reg, d.i, v)
                   [] d.t = "var" -> LET w == SelectSeq(d.vs, LAMBDA x : x.n = v.n)[1] IN
                                     {[v EXCEPT !.c = c] : c \in DerivedFields(reg, w.fs, v.c)}
                   [] OTHER -> {v}
        \* (around a leaf the library leaves out structs and tuples only)
        dropped == IF d.t = "arr" /\ d.n = 1 THEN {y \in {CVal(x, 1) : x \in inner} : IsComposite(y)}
                   ELSE IF IsWrapperType(d) THEN {CVal(x, 1) : x \in inner} ELSE {}
    IN UNION {Wraps(x) : x \in inner \cup dropped}

(***************************************************************************)
(* Values with their fields rearranged, and what that should do:           *)
(*   same, perm, surplus, unnamed: as the exact value;  none: an error     *)
(*   maybe: not said here.                                                 *)
(***************************************************************************)
AlignedC(c) ==
    LET n == CLen(c)
        sur == [n |-> <<122, 122>>, v |-> VStr(<<97>>, 0)]
        drop(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
        one == n = 1
        \* every name replaced: by its position, by nothing, by the next letter, by the other case
        news == [j \in 1..n |-> D_(j - 1)]
        other == {p \in {news, [j \in 1..n |-> <<>>], [j \in 1..n |-> <<65 + j>>],
                         [j \in 1..n |-> [i \in 1..Len(c.fs[j].n) |-> LET x == c.fs[j].n[i] IN IF x > 96 THEN x - 32 ELSE x]]} :
                    {p[j] : j \in 1..n} \cap {c.fs[j].n : j \in 1..n} = {}}
    IN IF c.k = "named" THEN
            {[c |-> CNamed([j \in 1..n |-> [n |-> p[j], v |-> c.fs[j].v]]), how |-> IF n < 2 THEN "maybe" ELSE "none"] : p \in other} \cup
            {[c |-> CNamed(Reverse(c.fs)), how |-> "perm"],
             [c |-> CNamed(c.fs), how |-> "same"],
             [c |-> CNamed(<<sur>> \o c.fs), how |-> IF n = 0 THEN "maybe" ELSE "surplus"],
             [c |-> CNamed(Append(c.fs, sur)), how |-> IF n = 0 THEN "maybe" ELSE "surplus"],
             [c |-> CUnnamed(CVals(c)), how |-> "unnamed"],
             [c |-> CUnnamed(Append(CVals(c), sur.v)), how |-> IF n = 0 THEN "maybe" ELSE "none"]} \cup
            (IF n > 1 THEN {[c |-> CNamed(drop(c.fs, i)), how |-> IF n = 2 THEN "maybe" ELSE "none"] : i \in 1..n} \cup
                           {[c |-> CNamed([c.fs EXCEPT ![i].n = <<121>>]), how |-> "none"] : i \in 1..n} \cup
                           {[c |-> CNamed(Append(Tail(c.fs), c.fs[1])), how |-> "perm"],
                            [c |-> CUnnamed(Tail(CVals(c))), how |-> IF n = 2 THEN "maybe" ELSE "none"]}
             ELSE {})
       ELSE {[c |-> c, how |-> "same"],
             [c |-> CNamed([j \in 1..n |-> [n |-> D_(n - j), v |-> CVal(c, j)]]), how |-> "unnamed"],
             [c |-> CNamed([j \in 1..n |-> [n |-> <<>>, v |-> CVal(c, j)]]), how |-> "unnamed"],
             [c |-> CNamed([j \in 1..n |-> [n |-> <<96 + j>>, v |-> CVal(c, j)]]), how |-> "unnamed"],
             [c |-> CUnnamed(Append(CVals(c), sur.v)), how |-> IF n = 0 THEN "maybe" ELSE "none"]} \cup
            (IF n > 2 THEN {[c |-> CUnnamed(Tail(CVals(c))), how |-> "none"]} ELSE {})
\* structs and enums whose variants name all or none of their fields
ZooAligned == {i \in ZooPlain : LET d == Ty(Zoo, i) IN
                 \/ d.t = "comp" /\ (AllNamed(d.fs) \/ ~AnyNamed(d.fs))
                 \/ d.t = "var" /\ \A k \in 1..Len(d.vs) : AllNamed(d.vs[k].fs) \/ ~AnyNamed(d.vs[k].fs)}
Aligned(reg, id, v) ==
    IF v.k = "var" THEN
        {[w |-> [v EXCEPT !.c = a.c], exact |-> v, how |-> a.how] : a \in AlignedC(v.c)} \cup
        {[w |-> [v EXCEPT !.n = <<90>>], exact |-> v, how |-> "none"]}
    ELSE {[w |-> WithKind(a.c, 0), exact |-> v, how |-> IF CLen(v) < 2 /\ a.how = "none" THEN "maybe" ELSE a.how]
            : a \in AlignedC(IF v.k = "named" THEN CNamed(v.fs) ELSE CUnnamed(v.vs))}

(***************************************************************************)
(* Towers: values nested in many single-value composites.                  *)
(***************************************************************************)
RECURSIVE Tower(_, _, _)
Tower(v, n, style) ==
    IF n = 0 THEN v
    ELSE LET i == Tower(v, n - 1, style) IN
         IF style = 0 \/ (style = 2 /\ n % 2 = 0) THEN VUnnamed(<<i>>, 0) ELSE VNamed(<<[n |-> a_, v |-> i]>>, 0)

(***************************************************************************)
(* Any small value, whatever the type.                                     *)
(***************************************************************************)
AnyLeaves == {VBool(TRUE, 0), VU(<<>>, 0), VU(<<1>>, 0), VU(<<0, 1>>, 0), VI([neg |-> TRUE, mag |-> <<1>>], 0),
              VI([neg |-> FALSE, mag |-> <<1>>], 0), VChar(97, 0), VStr(<<97>>, 0), VBits(<<TRUE>>, 0), VUnnamed(<<>>, 0), VNamed(<<>>, 0)}
AnyOver(S) ==
    {VUnnamed(<<x>>, 0) : x \in S} \cup {VNamed(<<[n |-> a_, v |-> x]>>, 0) : x \in S} \cup
    {VUnnamed(<<x, VU(<<1>>, 0)>>, 0) : x \in S} \cup
    {VNamed(<<[n |-> b_, v |-> VU(<<1>>, 0)], [n |-> a_, v |-> x]>>, 0) : x \in S} \cup
    {VVar(B_, CUnnamed(<<x>>), 0) : x \in S} \cup {VVar(C_, CNamed(<<[n |-> b_, v |-> VBool(TRUE, 0)], [n |-> a_, v |-> x]>>), 0) : x \in S}
Any1 == AnyLeaves \cup AnyOver(AnyLeaves) \cup {VVar(A_, CUnnamed(<<>>), 0), VVar(A_, CNamed(<<>>), 0)}
Any2 == Any1 \cup AnyOver(Any1)

(***************************************************************************)
(* A value with one part of it replaced by something no type accepts.      *)
(***************************************************************************)
Misfit == VVar(<<122, 122>>, CUnnamed(<<>>), 0)
RECURSIVE Spoiled(_), Spoils(_)
SpoiledC(c) == UNION {{IF c.k = "named" THEN [c EXCEPT !.fs[j].v = y] ELSE [c EXCEPT !.vs[j] = y] : y \in Spoiled(CVal(c, j))} : j \in 1..CLen(c)}
Spoiled(v) == {Misfit} \cup (IF IsComposite(v) THEN SpoiledC(v) ELSE IF v.k = "var" THEN {[v EXCEPT !.c = d] : d \in SpoiledC(v.c)} ELSE {})
\* n good ones and a bad one, at any of the places at; with names that say something else than the place, too
MisfitLists(n, good, bads, at) ==
    LET xs(i, bad) == [j \in 1..n |-> IF j = i + 1 THEN bad ELSE good] IN
    UNION {LET s == xs(i, bad) IN
           {VUnnamed(s, 0),
            VNamed([j \in 1..n |-> [n |-> DecText(NatOf(n - j)), v |-> s[j]]], 0),
            VNamed([j \in 1..n |-> [n |-> <<97>> \o DecText(NatOf(j)), v |-> s[j]]], 0)} : <<i, bad>> \in (at \cap 0..(n - 1)) \X bads}
Spoils(v) == v = Misfit \/ (IF IsComposite(v) THEN \E j \in 1..CLen(v) : Spoils(CVal(v, j)) ELSE v.k = "var" /\ \E j \in 1..CLen(v.c) : Spoils(CVal(v.c, j)))
=============================================================================
