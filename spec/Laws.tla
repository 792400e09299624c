-------------------------------- MODULE Laws --------------------------------
(***************************************************************************)
(* The relations in which the SCALE properties are stated.                 *)
(***************************************************************************)
EXTENDS Blame

(***************************************************************************)
(* Represents(reg, v, w): the given value v says the same data as w, the   *)
(* decoded value (whose contexts are type ids), up to the documented       *)
(* leniency.                                                               *)
(***************************************************************************)
IntVal(v) == CASE v.k = "u128" -> [neg |-> FALSE, mag |-> v.u]
               [] v.k = "i128" -> IntOfV(v)
               [] v.k = "char" -> [neg |-> FALSE, mag |-> NatOf(v.c)]
IsInt(v) == v.k \in {"u128", "i128", "char"}
IsWrapperType(d) == (d.t \in {"comp", "tup"} /\ Len(FieldsOf(d)) = 1) \/ (d.t = "arr" /\ d.n = 1)

RECURSIVE Represents(_, _, _)
FieldsRepresent(reg, c, wc) ==       \* composite of the given value against composite of the decoded value
    \/ /\ c.k = "named" /\ wc.k = "named" /\ Len(c.fs) > 0
       /\ \A j \in 1..Len(wc.fs) : \E k \in 1..Len(c.fs) :
              c.fs[k].n = wc.fs[j].n /\ Represents(reg, c.fs[k].v, wc.fs[j].v)
    \/ /\ ~(c.k = "named" /\ wc.k = "named" /\ Len(c.fs) > 0)
       /\ CLen(c) = CLen(wc)
       /\ \A j \in 1..CLen(wc) : Represents(reg, CVal(c, j), CVal(wc, j))
Represents(reg, v, w) ==
    \/ CASE w.k \in {"u128", "i128"} -> IsInt(v) /\ IntVal(v) = IntVal(w)
         [] w.k = "bool" -> v.k = "bool" /\ v.b = w.b
         [] w.k = "str" -> v.k = "str" /\ v.s = w.s
         [] w.k = "bits" ->
              \/ v.k = "bits" /\ v.bits = w.bits
              \/ /\ IsComposite(v) /\ CLen(v) = Len(w.bits)
                 /\ \A j \in 1..CLen(v) : BitOf(CVal(v, j)) = <<w.bits[j]>>
         [] w.k = "var" -> v.k = "var" /\ v.n = w.n /\ FieldsRepresent(reg, v.c, w.c)
         [] IsComposite(w) ->
              \/ IsComposite(v) /\ FieldsRepresent(reg, v, w)
              \* a 256-bit integer is its 32 bytes
              \/ /\ v.k \in {"u256", "i256"} /\ CLen(w) = 32
                 /\ \A j \in 1..32 : Represents(reg, VU(NatOf(v.w[j]), 0), CVal(w, j))
         [] OTHER -> FALSE
    \* a wrapper of the type left out
    \/ IsComposite(w) /\ CLen(w) = 1 /\ IsWrapperType(Ty(reg, w.ctx)) /\ Represents(reg, v, CVal(w, 1))
    \* an extra wrapper around the value
    \/ IsComposite(v) /\ CLen(v) = 1 /\ Represents(reg, CVal(v, 1), w)

\* the registry with the types in gone missing
Minus(reg, gone) == [i \in 1..Len(reg) |-> IF i - 1 \in gone THEN NoType ELSE reg[i]]
\* the bytes b say, to one who knows all types, the same data as v
SaysSame(reg, ty, v, b) == LET d == Dec(reg, ty, b) IN d.ok /\ d.p = Len(b) + 1 /\ Represents(reg, v, d.v)
FieldsSaySame(reg, fs, v, b) == LET d == DecFieldList(reg, fs, b) IN d.ok /\ d.p = Len(b) + 1 /\ FieldsRepresent(reg, v, d.c)

(***************************************************************************)
(* Types with values of no bytes (whose claimed counts are unbounded).     *)
(***************************************************************************)
RECURSIVE ZeroSized(_, _, _)
ZeroSized(reg, id, seen) ==
    LET d == Ty(reg, id) IN
    IF id \in seen THEN FALSE
    ELSE CASE d.t \in {"tup", "comp"} -> \A f \in {FieldsOf(d)[j].i : j \in 1..Len(FieldsOf(d))} : ZeroSized(reg, f, seen \cup {id})
           [] d.t = "arr" -> d.n = 0 \/ ZeroSized(reg, d.i, seen \cup {id})
           [] OTHER -> FALSE
HasZeroSizedSeq(reg, id) == \E i \in Reach(reg, id) : Ty(reg, i).t = "seq" /\ ZeroSized(reg, Ty(reg, i).i, {})

\* heap bytes a decode of n input bytes may hold at once: proportional to the input (the constant covers the type's shape)
MemBound(reg, n) == 65536 + 4096 * n + 16384 * Len(reg)

(***************************************************************************)
(* Work of an encode, in type lookups: a polynomial in the size of the     *)
(* value whose degree is how deeply the type nests (a composite of one     *)
(* value may be tried both as it is and as what it contains, at each       *)
(* level).  Recursive types have no such depth; those that recurse         *)
(* through a list are set aside (a known finding), the others must finish. *)
(***************************************************************************)
Recursive(reg, id) == \E i \in Reach(reg, id) : \E j \in Succs(Ty(reg, i)) : i \in Reach(reg, j)
ListCycle(reg, id) == \E i \in Reach(reg, id) : Ty(reg, i).t \in {"seq", "arr"} /\ \E j \in Succs(Ty(reg, i)) : i \in Reach(reg, j)
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
RankStep(reg, r) ==
    [i \in DOMAIN r |->
        LET d == Ty(reg, i) IN
        CASE d.t \in {"prim", "none", "bits"} -> 0
          [] d.t = "compact" \/ (IsWrapperType(d) /\ d.t # "arr") -> MaxOf({r[j] : j \in Succs(d)})
          [] OTHER -> 1 + MaxOf({0} \cup {r[j] : j \in Succs(d)})]
\* of a type that is not recursive
Rank(reg, id) ==
    LET R == Reach(reg, id) IN
    FoldLeft(LAMBDA r, k : RankStep(reg, r), [i \in R |-> 0], [k \in 1..Len(reg) + 1 |-> k])[id]
RECURSIVE PowSat(_, _)
PowSat(b, e) == IF e = 0 THEN 1
                ELSE LET p == PowSat(b, e - 1) IN IF p > 100000000 \div b THEN 100000000 ELSE p * b
WorkBound(reg, id, v) == PowSat(NodeCount(v) + 4 + Cardinality(Reach(reg, id)), Rank(reg, id) + 2)
\* how high a tower to try on a type of this rank: the polynomial stays small and an exponential does not
TowerHeight(rank) == IF rank < 2 THEN 64 ELSE IF rank = 2 THEN 40 ELSE IF rank = 3 THEN 24 ELSE 16

RECURSIVE Has256Type(_, _)
Has256Type(reg, id) == \E i \in Reach(reg, id) : Ty(reg, i).t = "prim" /\ Ty(reg, i).p \in {"u256", "i256"}
FieldsReach(reg, fs) == UNION {Reach(reg, fs[j].i) : j \in 1..Len(fs)}
=============================================================================
