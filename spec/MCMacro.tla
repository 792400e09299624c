------------------------------- MODULE MCMacro -------------------------------
(* What the macro's syntax denotes, against the grammar of text and itself. *)
EXTENDS MacroUniverse

CONSTANTS Mode, Deep
VARIABLES x, in
Init == x = <<>> /\ in = FALSE
Next == ~in /\ in' = TRUE /\ x' \in Macros(Deep)
Spec == Init /\ [][Next]_<<x, in>>

\* the same syntax as a text denotes the same value (trailing commas aside, which texts do not have)
RECURSIVE Bare(_)
Bare(t) == CASE t.m = "list" -> [t EXCEPT !.tc = FALSE, !.xs = [i \in 1..Len(t.xs) |-> Bare(t.xs[i])]]
             [] t.m = "named" -> [t EXCEPT !.tc = FALSE, !.es = [i \in 1..Len(t.es) |-> [t.es[i] EXCEPT !.x = Bare(t.es[i].x)]]]
             [] t.m = "var" -> [t EXCEPT !.c = Bare(t.c)]
             [] OTHER -> t
C29Text == (in /\ Shared(x)) => LET s == SyntaxText(Bare(x)) r == Parse(s, <<>>) IN
    r.k = "ok" /\ r.i = Len(s) + 1 /\ r.v = Unsign(Denote(x))
\* commas at the end do not matter; every counting expression is evaluated once, in order
C29Commas == in => Denote(Bare(x)) = Denote(x)
RECURSIVE Counts(_)
Counts(t) == CASE t.m = "expr" -> IF t.v.k = "count" THEN 1 ELSE 0
               [] t.m = "list" -> FoldLeft(LAMBDA a, y : a + Counts(y), 0, t.xs)
               [] t.m = "named" -> FoldLeft(LAMBDA a, y : a + Counts(y.x), 0, t.es)
               [] t.m = "var" -> Counts(t.c)
               [] OTHER -> 0
C29Once == in => DenoteFrom(x, 0)[2] = Counts(x) /\ Denote(LL(<<x, Count>>, FALSE)).vs[2] = VU(NatOf(Counts(x)), 0)
=============================================================================
