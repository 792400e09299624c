------------------------------- MODULE MCWork -------------------------------
(***************************************************************************)
(* The attempts an encode makes, following the library's algorithm: as is, *)
(* then with the type's wrappers gone, then with the value's outer layer   *)
(* gone unless that was just tried.  WorkPolynomial bounds them over       *)
(* towers of single-value composites of every height.                      *)
(***************************************************************************)
EXTENDS Universe

CONSTANTS Mode, Deep
VARIABLES ty, x, n
vars == <<ty, x, n>>

\* results: [ok, n] with n the attempts made; peel: the only value was already tried on this type
R(ok, k) == [ok |-> ok, n |-> k, peel |-> FALSE]
RECURSIVE W(_, _), WComp(_, _), WAsIs(_, _), WAll(_, _, _)
\* values vs against types is, stopping at the first that fails
WAll(is, vs, k) == IF vs = <<>> THEN R(TRUE, k)
                   ELSE LET r == W(Head(is), Head(vs)) IN
                        IF r.ok THEN WAll(Tail(is), Tail(vs), k + r.n) ELSE R(FALSE, k + r.n)
WFields(fs, c) ==
    IF AnyNamed(fs) /\ c.k = "named" /\ Len(c.fs) > 0 THEN
        LET hits(m) == SelectSeq(c.fs, LAMBDA f : f.n = m)
            RECURSIVE go(_, _)
            go(j, k) == IF j > Len(fs) THEN R(TRUE, k)
                        ELSE IF hits(fs[j].n) = <<>> THEN R(FALSE, k)
                        ELSE LET r == W(fs[j].i, Last(hits(fs[j].n)).v) IN IF r.ok THEN go(j + 1, k + r.n) ELSE R(FALSE, k + r.n)
        IN go(1, 1)
    ELSE IF Len(fs) # CLen(c) THEN R(FALSE, 1)
    ELSE WAll([j \in 1..Len(fs) |-> fs[j].i], CVals(c), 1)
WHelper(id, c) ==
    LET s == SkipU(Zoo, id) d == Ty(Zoo, s) named == c.k = "named" /\ Len(c.fs) > 0 IN
    CASE d.t = "comp" -> IF ~named /\ CLen(c) = 1 THEN W(s, CVal(c, 1)) ELSE WFields(d.fs, c)
      [] d.t = "tup" -> IF CLen(c) = 1 THEN W(s, CVal(c, 1)) ELSE WFields(FieldsOf(d), c)
      [] d.t = "none" -> R(FALSE, 1)
      [] OTHER -> IF CLen(c) = 1 THEN W(s, CVal(c, 1)) ELSE R(FALSE, 1)
WAsIs(id, c) ==
    LET d == Ty(Zoo, id)
        one == c.k = "unnamed" /\ Len(c.vs) = 1
        more(r) == [r EXCEPT !.n = @ + 1]
    IN CASE d.t \in {"comp", "tup"} ->
              LET fs == FieldsOf(d) IN
              IF one /\ Len(fs) = 1 /\ ~fs[1].h THEN more(W(fs[1].i, c.vs[1]))
              ELSE [WHelper(id, c) EXCEPT !.n = @ + 1,
                       !.peel = IF Len(fs) = 1 THEN FALSE ELSE IF d.t = "tup" THEN CLen(c) = 1 ELSE one]
         [] d.t = "seq" -> more(WAll([j \in 1..CLen(c) |-> d.i], CVals(c), 1))
         [] d.t = "arr" -> IF CLen(c) # d.n THEN R(FALSE, 1) ELSE more(WAll([j \in 1..CLen(c) |-> d.i], CVals(c), 1))
         [] d.t = "bits" -> R(EncValsAsBits(CVals(c), d).ok, 1)
         [] OTHER -> IF CLen(c) = 1 THEN [W(id, CVal(c, 1)) EXCEPT !.n = @ + 1, !.peel = TRUE] ELSE R(FALSE, 1)
WComp(id, c) ==
    LET r1 == WAsIs(id, c) IN
    IF r1.ok THEN [r1 EXCEPT !.peel = FALSE]
    ELSE LET s == Skip1(Zoo, id, TRUE)
             r2 == IF s # id THEN WAsIs(s, c) ELSE [R(FALSE, 0) EXCEPT !.peel = r1.peel]
             k == r1.n + r2.n
         IN IF r2.ok THEN R(TRUE, k)
            ELSE IF CLen(c) = 1 /\ ~r2.peel THEN LET r3 == W(s, CVal(c, 1)) IN R(r3.ok, k + r3.n)
            ELSE R(FALSE, k)
W(id, v) ==
    CASE IsComposite(v) -> WComp(id, v)
      [] v.k = "var" ->
            LET d == Ty(Zoo, Skip1(Zoo, id, FALSE)) IN
            IF d.t # "var" THEN R(FALSE, 1)
            ELSE LET hits == SelectSeq(d.vs, LAMBDA w : w.n = v.n) IN IF hits = <<>> THEN R(FALSE, 1) ELSE WFields(hits[1].fs, v.c)
      [] OTHER -> R(Enc(Zoo, id, v).ok, 1)

Leaves == {VBool(TRUE, 0), VU(<<0, 1>>, 0), VStr(<<97>>, 0), VUnnamed(<<>>, 0), VBits(<<TRUE>>, 0), VVar(A_, CUnnamed(<<>>), 0),
           VUnnamed(<<VU(<<1>>, 0), VBool(TRUE, 0)>>, 0)}
Init == ty \in {i \in ZooIds : ~Recursive(Zoo, i)} /\ x \in Leaves /\ n = 0
\* one more layer
Wrap == n < (IF Deep = 1 THEN 7 ELSE IF Rank(Zoo, ty) < 3 THEN 28 ELSE 18) /\ n' = n + 1 /\ UNCHANGED ty
        /\ x' \in {VUnnamed(<<x>>, 0), VNamed(<<[n |-> a_, v |-> x]>>, 0)}
        \* all layers unnamed, all named, or alternating
        /\ (n > 1 => (x'.k = x.k) = (x.k = CVal(x, 1).k))
Next == Wrap
Spec == Init /\ [][Next]_vars

Res == W(ty, x)
WorkPolynomial == Res.n <= 2 * PowSat(NodeCount(x) + 2, Rank(Zoo, ty) + 2)
\* the attempts decide as the algorithm of the specification does
WorkAgrees == n <= 5 => Res.ok = Enc(Zoo, ty, x).ok
=============================================================================
