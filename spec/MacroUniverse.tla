---------------------------- MODULE MacroUniverse ----------------------------
(* The bounded universe of invocations of the value macro.                  *)
EXTENDS Macro, FiniteSets, FiniteSetsExt

MSeqs(S, lo, hi) == UNION {[1..k -> S] : k \in lo..hi}
Lit(d) == [m |-> "lit", d |-> d]
IntL(ty, neg, mag) == Lit(DInt(ty, [neg |-> neg, mag |-> mag]))
Str(s) == Lit(DStr(s))
Chr(c) == Lit([k |-> "char", c |-> c])
Boo(b) == Lit(DBool(b))
Ex(rs, v) == [m |-> "expr", rs |-> rs, v |-> v]
LL(xs, tc) == [m |-> "list", xs |-> xs, tc |-> tc]
EE(q, s, x) == [q |-> q, s |-> s, x |-> x]
NN(es, tc) == [m |-> "named", es |-> es, tc |-> tc]
VV(n, c) == [m |-> "var", n |-> n, c |-> c]
N(n) == NatOf(n)
Ui(n) == VU(N(n), 0)
Si(n) == VI(Pos(N(n)), 0)
KA == <<97>>
KB == <<98>>
FooN == <<70, 111, 111>>
Inner == VNamed(<<[n |-> KA, v |-> Ui(1)], [n |-> KA, v |-> VBool(TRUE, 0)]>>, 0)

\* embedded expressions; the names are bound where the macro is used
Exprs == {Ex("val", Inner), Ex("fields", Ui(41)), Ex("field_name", VStr(<<102>>, 0)), Ex("variant_name", VChar(118, 0)), Ex("token", VBool(TRUE, 0)),
          Ex("2 + 3", Si(5)), Ex("val.clone()", Inner), Ex("!flag", VBool(FALSE, 0)), Ex("-num", VI([neg |-> TRUE, mag |-> N(9)], 0)), Ex("num as u8", Ui(9)),
          Ex("vec![1u8, 2]", VUnnamed(<<Ui(1), Ui(2)>>, 0)), Ex("text.as_str()", VStr(<<116, 34>>, 0)), Ex("text", VStr(<<116, 34>>, 0)), Ex("&*text", VStr(<<116, 34>>, 0)),
          Ex("bits.clone()", VBits(<<TRUE, FALSE, TRUE>>, 0)), Ex("comp", VUnnamed(<<Ui(7)>>, 0)), Ex("variant", VVar(KB, CUnnamed(<<>>), 0)), Ex("prim", VChar(112, 0)),
          Ex("std::convert::identity(3u64)", Ui(3)), Ex("arr[1]", Ui(20)), Ex("tup.1", VChar(122, 0)), Ex("u128::MAX", VU([i \in 1..16 |-> 255], 0)),
          Ex("i128::MIN", VI([neg |-> TRUE, mag |-> Pow2(127)], 0)), Ex("if flag { 1u8 } else { 2 }", Ui(1)), Ex("b'a'", Ui(97)), Ex("0xffu32", Ui(255)), Ex("1_000", Si(1000)),
          Ex("value!({ a: 1u8, a: true })", Inner), Ex("r#\"q\"\"#", VStr(<<113, 34>>, 0)), Ex("pairs.clone()", VNamed(<<[n |-> KB, v |-> VBool(TRUE, 0)]>>, 0)),
          Ex("Value::variant(\"b\", Composite::Unnamed(vec![]))", VVar(KB, CUnnamed(<<>>), 0))}
Count == Ex("n.one_more()", [k |-> "count"])
Lits == {IntL("", FALSE, N(1)), IntL("i64", TRUE, N(5)), IntL("", TRUE, N(7)), IntL("u8", FALSE, N(255)), IntL("u128", FALSE, [i \in 1..16 |-> 255]), IntL("usize", FALSE, N(3)),
         IntL("i16", FALSE, N(0)), Str(<<>>), Str(<<104, 105>>), Str(<<34, 92, 10, 233>>), Chr(99), Chr(39), Boo(TRUE), Boo(FALSE)}

\* one of each kind of element
Kinds10 == {Boo(TRUE), Count, LL(<<>>, FALSE), LL(<<Count>>, FALSE), NN(<<>>, FALSE), NN(<<EE(FALSE, KA, Count)>>, FALSE), VV(FooN, LL(<<>>, FALSE)),
            VV(FooN, LL(<<Count>>, TRUE)), VV(FooN, NN(<<>>, FALSE)), VV(KB, NN(<<EE(TRUE, KA, IntL("", TRUE, N(1)))>>, TRUE))}
Keys == {EE(FALSE, k, Boo(TRUE)) : k \in {KA, <<95, 120>>, <<116, 114, 117, 101>>, <<97, 49>>, <<233>>, <<102, 105, 101, 108, 100, 115>>, <<107, 101, 121>>}}
        \cup {EE(TRUE, k, Boo(TRUE)) : k \in {<<>>, KA, <<97, 32, 98>>, <<34>>, <<92, 110>>, <<116, 121, 112, 101>>, <<48>>, <<58>>, <<44>>}}
VNames == {KA, FooN, <<95, 97>>, <<118, 49>>, <<83, 111, 109, 101>>, <<116, 114, 117, 101>>, <<118>>, <<109, 97, 116, 99, 104>>}
\* the four brackets around elements
Brackets(xs, tc) ==
    LET es == [i \in 1..Len(xs) |-> EE(i % 3 = 0, <<96 + i>>, xs[i])] IN
    {LL(xs, tc), NN(es, tc), VV(FooN, LL(xs, tc)), VV(<<118>>, NN(es, tc))}
Around(S, lo, hi) == UNION {Brackets(xs, tc) : <<xs, tc>> \in {<<xs, tc>> \in MSeqs(S, lo, hi) \X BOOLEAN : xs # <<>> \/ ~tc}}
Pick1(S, k) == IF Cardinality(S) <= k THEN S ELSE LET s == SetToSeq(S) IN {s[((i - 1) * Len(s)) \div k + 1] : i \in 1..k}
Wide(k) == Brackets([i \in 1..k |-> IF i % 4 = 0 THEN LL(<<Count>>, FALSE) ELSE Count], k % 2 = 0)
RECURSIVE Nests(_)
Nests(k) == IF k = 0 THEN {Count} ELSE UNION {Brackets(<<x>>, FALSE) : x \in Nests(k - 1)}
\* same keys twice
Twice == {NN(<<EE(FALSE, KA, Count), EE(TRUE, KA, Count), EE(FALSE, KA, Boo(FALSE))>>, tc) : tc \in BOOLEAN}
Macros(deep) ==
    {[m |-> "none"]} \cup Lits \cup Exprs \cup Around(Kinds10, 0, 2) \cup Around(Lits \cup Exprs, 1, 1)
    \cup UNION {Brackets(<<a, b>>, FALSE) : <<a, b>> \in (Exprs \X {Count}) \cup ({Count} \X Exprs)}
    \cup {NN(<<e>>, tc) : <<e, tc>> \in Keys \X BOOLEAN} \cup {NN(<<e, EE(FALSE, KB, Count)>>, FALSE) : e \in Keys} \cup Twice
    \cup {VV(n, c) : <<n, c>> \in VNames \X {LL(<<>>, FALSE), LL(<<Count>>, FALSE), NN(<<>>, FALSE), NN(<<EE(FALSE, KA, Count)>>, TRUE)}}
    \cup {LL(<<VV(n, LL(<<Count>>, FALSE)), Count>>, FALSE) : n \in VNames} \cup {NN(<<EE(FALSE, KA, VV(n, NN(<<>>, FALSE)))>>, FALSE) : n \in VNames}
    \cup Wide(5) \cup Wide(20) \cup Nests(3)
    \cup Pick1(Around({LL(<<x>>, FALSE) : x \in Kinds10} \cup {NN(<<EE(FALSE, KA, Count), EE(FALSE, KB, x)>>, FALSE) : x \in Kinds10}, 1, 2), 200)
    \cup (IF deep > 1 THEN Nests(4) \cup Pick1(Around(Kinds10, 3, 3), 1500) \cup Pick1(Around(Pick1(Around(Kinds10, 1, 2), 60), 1, 2), 1500) ELSE Pick1(Around(Kinds10, 3, 3), 200))

\* syntax that is also the text of a value
RECURSIVE Shared(_)
Shared(t) == CASE t.m = "lit" -> t.d.k # "int" \/ t.d.ty # ""
               [] t.m = "list" -> \A i \in 1..Len(t.xs) : Shared(t.xs[i])
               [] t.m = "named" -> \A i \in 1..Len(t.es) : (t.es[i].q \/ (t.es[i].s # <<116, 114, 117, 101>> /\ t.es[i].s[1] # 95)) /\ Shared(t.es[i].x)
               [] t.m = "var" -> t.n # <<116, 114, 117, 101>> /\ t.n[1] # 95 /\ Shared(t.c)
               [] OTHER -> FALSE
=============================================================================
