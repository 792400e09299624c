------------------------------- MODULE Values -------------------------------
(***************************************************************************)
(* Value trees.  Every node carries a context (an integer; 0 when the      *)
(* library's context type is unit).  A node is a record with field k:      *)
(*   bool b | char c | str s | u128 u | i128 neg,i | u256 w | i256 w       *)
(*   bits bits | named fs | unnamed vs | var n,c                           *)
(* where fs is a sequence of [n, v], vs a sequence of nodes and the field  *)
(* c of a variant is a [k |-> "named", fs] or [k |-> "unnamed", vs].       *)
(* Every kind has its own payload field, because TLC refuses to compare    *)
(* payloads of different types.                                            *)
(***************************************************************************)
EXTENDS Num, Utf8

IsComposite(v) == v.k \in {"named", "unnamed"}
IsPrim(v) == v.k \in {"bool", "char", "str", "u128", "i128", "u256", "i256"}

\* fields of a composite as (optional name, value) pairs
CLen(c) == IF c.k = "named" THEN Len(c.fs) ELSE Len(c.vs)
CVal(c, i) == IF c.k = "named" THEN c.fs[i].v ELSE c.vs[i]
CVals(c) == IF c.k = "named" THEN [i \in 1..Len(c.fs) |-> c.fs[i].v] ELSE c.vs

VBool(b, x) == [k |-> "bool", b |-> b, ctx |-> x]
VChar(c, x) == [k |-> "char", c |-> c, ctx |-> x]
VStr(s, x) == [k |-> "str", s |-> s, ctx |-> x]
VU(m, x) == [k |-> "u128", u |-> m, ctx |-> x]
VI(i, x) == [k |-> "i128", neg |-> i.neg, i |-> i.mag, ctx |-> x]
VU256(w, x) == [k |-> "u256", w |-> w, ctx |-> x]
VI256(w, x) == [k |-> "i256", w |-> w, ctx |-> x]
VBits(b, x) == [k |-> "bits", bits |-> b, ctx |-> x]
VNamed(fs, x) == [k |-> "named", fs |-> fs, ctx |-> x]
VUnnamed(vs, x) == [k |-> "unnamed", vs |-> vs, ctx |-> x]
VVar(n, c, x) == [k |-> "var", n |-> n, c |-> c, ctx |-> x]
CNamed(fs) == [k |-> "named", fs |-> fs]
CUnnamed(vs) == [k |-> "unnamed", vs |-> vs]
IntOfV(v) == [neg |-> v.neg, mag |-> v.i]                \* of an i128 node

WithCtx(v, x) == [v EXCEPT !.ctx = x]

(***************************************************************************)
(* Mapping contexts.                                                       *)
(***************************************************************************)
RECURSIVE MapCtx(_, _)
MapCtxC(c, f(_)) ==
    IF c.k = "named" THEN [c EXCEPT !.fs = [i \in 1..Len(c.fs) |-> [n |-> c.fs[i].n, v |-> f(c.fs[i].v)]]]
    ELSE [c EXCEPT !.vs = [i \in 1..Len(c.vs) |-> f(c.vs[i])]]
MapCtx(v, g) ==       \* g: a function on the contexts present
    LET w == [v EXCEPT !.ctx = g[v.ctx]] IN
    IF IsComposite(v) THEN MapCtxC(w, LAMBDA x : MapCtx(x, g))
    ELSE IF v.k = "var" THEN [w EXCEPT !.c = MapCtxC(v.c, LAMBDA x : MapCtx(x, g))]
    ELSE w

\* all contexts set to x
RECURSIVE SetCtx(_, _)
SetCtx(v, x) ==
    LET w == [v EXCEPT !.ctx = x] IN
    IF IsComposite(v) THEN MapCtxC(w, LAMBDA y : SetCtx(y, x))
    ELSE IF v.k = "var" THEN [w EXCEPT !.c = MapCtxC(v.c, LAMBDA y : SetCtx(y, x))]
    ELSE w
StripCtx(v) == SetCtx(v, 0)
SetCtxC(c, x) == MapCtxC(c, LAMBDA y : SetCtx(y, x))

\* contexts of a tree in left-to-right pre-order
RECURSIVE Contexts(_)
ContextsC(c) == FlattenSeq([i \in 1..CLen(c) |-> Contexts(CVal(c, i))])
Contexts(v) == <<v.ctx>> \o (IF IsComposite(v) THEN ContextsC(v) ELSE IF v.k = "var" THEN ContextsC(v.c) ELSE <<>>)

RECURSIVE NodeCount(_)
NodeCountC(c) == FoldLeft(LAMBDA acc, x : acc + NodeCount(x), 0, CVals(c))
NodeCount(v) == 1 + (IF IsComposite(v) THEN NodeCountC(v) ELSE IF v.k = "var" THEN NodeCountC(v.c) ELSE 0)

RECURSIVE Has256(_)
Has256C(c) == \E i \in 1..CLen(c) : Has256(CVal(c, i))
Has256(v) == v.k \in {"u256", "i256"} \/ (IsComposite(v) /\ Has256C(v)) \/ (v.k = "var" /\ Has256C(v.c))

\* non-negative signed integers become unsigned ones (what printing and parsing does)
RECURSIVE Unsign(_)
Unsign(v) ==
    IF v.k = "i128" THEN (IF v.neg THEN v ELSE VU(v.i, v.ctx))
    ELSE IF IsComposite(v) THEN MapCtxC(v, Unsign)
    ELSE IF v.k = "var" THEN [v EXCEPT !.c = MapCtxC(v.c, Unsign)]
    ELSE v
=============================================================================
