-------------------------------- MODULE Macro --------------------------------
(***************************************************************************)
(* The syntax of the value macro and what it denotes.                      *)
(*   [m |-> "lit", d]        a literal: a bool, int, char or str datum     *)
(*                           (int with ty "" has no suffix)                *)
(*   [m |-> "expr", rs, v]   an embedded expression and what it evaluates  *)
(*                           to; v.k = "count": the number of the counting *)
(*                           expressions before it                         *)
(*   [m |-> "list", xs, tc]  ( x, .. )         tc: a trailing comma        *)
(*   [m |-> "named", es, tc] { key: x, .. }    es: [q, s, x]; q: the key   *)
(*                           is written as a string literal                *)
(*   [m |-> "var", n, c]     Name( .. ) or Name { .. }                     *)
(*   [m |-> "none"]          nothing at all                                *)
(***************************************************************************)
EXTENDS Data, Text

\* <<value, counting expressions so far>>
RECURSIVE DenoteFrom(_, _)
RECURSIVE DenoteAll(_, _)
DenoteAll(xs, n) ==
    IF xs = <<>> THEN <<<<>>, n>>
    ELSE LET a == DenoteFrom(xs[1], n) b == DenoteAll(Tail(xs), a[2]) IN <<<<a[1]>> \o b[1], b[2]>>
DenoteComp(t, n) ==
    IF t.m = "list" THEN LET r == DenoteAll(t.xs, n) IN <<CUnnamed(r[1]), r[2]>>
    ELSE LET r == DenoteAll([i \in 1..Len(t.es) |-> t.es[i].x], n) IN
         <<CNamed([i \in 1..Len(t.es) |-> [n |-> t.es[i].s, v |-> r[1][i]]]), r[2]>>
DenoteLit(d) == IF d.k # "int" THEN ToVal(d).x ELSE IF d.ty \in UTypes \cup {"usize"} THEN VU(d.i, 0) ELSE VI(IntOfD(d), 0)
DenoteFrom(t, n) ==
    CASE t.m = "lit" -> <<DenoteLit(t.d), n>>
      [] t.m = "expr" -> IF t.v.k = "count" THEN <<VU(NatOf(n), 0), n + 1>> ELSE <<t.v, n>>
      [] t.m \in {"list", "named"} -> LET r == DenoteComp(t, n) IN <<NodeOfC(r[1]), r[2]>>
      [] t.m = "var" -> LET r == DenoteComp(t.c, n) IN <<VVar(t.n, r[1], 0), r[2]>>
      [] t.m = "none" -> <<VUnnamed(<<>>, 0), n>>
Denote(t) == DenoteFrom(t, 0)[1]

\* the text of syntax that is also that of values; quotes around every string, no suffixes
RECURSIVE SyntaxText(_)
Commas(ss, tc) == Join(ss, <<44>>) \o (IF tc /\ ss # <<>> THEN <<44>> ELSE <<>>)
SyntaxText(t) ==
    CASE t.m = "lit" -> PrintAs(DenoteLit(t.d), "compact").s
      [] t.m = "list" -> <<40>> \o Commas([i \in 1..Len(t.xs) |-> SyntaxText(t.xs[i])], t.tc) \o <<41>>
      [] t.m = "named" -> <<123>> \o Commas([i \in 1..Len(t.es) |->
                            (IF t.es[i].q THEN PrintAs(VStr(t.es[i].s, 0), "compact").s ELSE t.es[i].s) \o <<58>> \o SyntaxText(t.es[i].x)], t.tc) \o <<125>>
      [] t.m = "var" -> t.n \o SyntaxText(t.c)
=============================================================================
