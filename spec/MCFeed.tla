------------------------------- MODULE MCFeed -------------------------------
(***************************************************************************)
(* Reading a value from a format that delivers its data piece by piece, as *)
(* a state machine: the format is asked for one thing at a time and may    *)
(* fail at any of them.  What has been read is on a stack of open          *)
(* collections.  Checked: what comes out in the end is what the reading    *)
(* function of the specification says; nothing comes out before everything *)
(* was asked for; everything is asked for once; a failure is the result    *)
(* and nothing is asked for after it; the sizes a format announces appear  *)
(* nowhere.                                                                *)
(***************************************************************************)
EXTENDS DataUniverse, IOUtils

CONSTANTS Mode, Deep

VARIABLES d,       \* what the format holds
          as,      \* what is read from it
          stack,   \* the open collections: [k, rest (what the format has left in it), got, n]
          res,     \* [r |-> "run"] until there is a result
          asked    \* things asked of the format
vars == <<d, as, stack, res, asked>>
Run == [r |-> "run"]

Cut(S) == AtMost(S, 400 * Deep)
Docs == {x \in (IF Mode = "feed" THEN Cut(Trees(Deep)) ELSE {}) : Plain(x) /\ FA("value", x, FALSE).r # "any"}
Item(w, x) == [w |-> w, x |-> x]                    \* a thing to ask for, and what is wanted of it
Frame(k, w, n, rest) == [k |-> k, w |-> w, n |-> n, rest |-> rest, got |-> <<>>]
Root == Frame("root", "value", <<>>, <<>>)
\* the frame that is open before anything is asked
Init == /\ d \in Docs /\ as \in {"value", "comp", "variant"}
        /\ (as # "value" => FA(as, d, FALSE).r # "any")
        /\ stack = <<[Root EXCEPT !.rest = <<Item(as, d)>>]>>
        /\ res = Run /\ asked = 0

Top == stack[Len(stack)]
Below == SubSeq(stack, 1, Len(stack) - 1)
SetTop(f) == [stack EXCEPT ![Len(stack)] = f]

\* the things in a map, one after the other
KeyVals(es) == FlattenSeq([i \in 1..Len(es) |-> <<Item("key", es[i].key), Item("value", es[i].val)>>])
\* what is wanted of the next thing in the top frame depends on what came before
Want(f, it) ==
    IF f.k = "map" /\ it.w = "value" /\ Len(f.got) = 1 /\ f.w = "value" /\ f.got[1] = Ident THEN "bits"
    ELSE IF f.k = "form" /\ it.w = "value" THEN (IF f.got[Len(f.got)] = NameKey THEN "key" ELSE "comp")
    ELSE it.w
\* collections that open when they are met
OpensAs(w, x) ==
    CASE w \in {"value", "comp", "variant"} /\ x.k = "nstruct" /\ w # "variant" -> <<Frame("same", w, <<>>, <<Item(w, x.x)>>)>>
      [] w \in {"value", "comp"} /\ IsSeq(x) -> <<Frame("list", w, <<>>, [i \in 1..Len(x.xs) |-> Item("value", x.xs[i])])>>
      [] w \in {"value", "comp"} /\ IsMap(x) -> <<Frame("map", w, <<>>, KeyVals(Entries(x)))>>
      [] w = "variant" /\ IsMap(x) -> <<Frame("form", w, <<>>, KeyVals(Entries(x)))>>
      [] w \in {"value", "variant"} /\ x.k = "some" -> <<Frame("some", w, <<>>, <<Item("value", x.x)>>)>>
      [] w \in {"value", "variant"} /\ x.k = "nvar" -> <<Frame("enum", w, x.n, <<Item("comp", x.x)>>)>>
      [] w \in {"value", "variant"} /\ x.k = "tvar" -> <<Frame("enum", w, x.n, <<Item("comp", [k |-> "seq", xs |-> x.xs])>>)>>
      [] w \in {"value", "variant"} /\ x.k = "svar" -> <<Frame("enum", w, x.n, <<Item("comp", [k |-> "struct", fs |-> x.fs])>>)>>
      [] w = "bits" /\ IsSeq(x) -> <<Frame("bits", w, <<>>, [i \in 1..Len(x.xs) |-> Item("bit", x.xs[i])])>>
      [] OTHER -> <<>>
\* what a thing without parts gives
Leaf(w, x) ==
    CASE w \in {"value", "variant"} /\ x.k = "none" -> OkR(VVar(NoneName, CUnnamed(<<>>), 0))
      [] w \in {"value", "variant"} /\ x.k = "uvar" -> OkR(VVar(x.n, CUnnamed(<<>>), 0))
      [] w = "value" /\ x.k \in {"bool", "char", "str", "int"} -> ToVal(x)
      [] w \in {"value", "comp"} /\ x.k = "bytes" -> OkR(BytesVal(x.w))
      [] w \in {"value", "comp"} /\ x.k \in {"unit", "ustruct"} -> OkR(VUnnamed(<<>>, 0))
      [] w = "key" -> AsString(x)
      [] w = "bit" /\ x.k = "bool" -> OkR(x.b)
      [] OTHER -> ErrR
Bare(v) == IF v.k = "named" THEN CNamed(v.fs) ELSE CUnnamed(v.vs)
\* the value of a collection that has everything
Done(f) ==
    CASE f.k \in {"root", "same"} -> OkR(f.got[1])
      [] f.k = "list" -> OkR(VUnnamed(f.got, 0))
      [] f.k = "map" -> IF f.w = "value" /\ f.got # <<>> /\ f.got[1] = Ident THEN OkR(f.got[2])
                        ELSE OkR(VNamed([i \in 1..(Len(f.got) \div 2) |-> [n |-> f.got[2 * i - 1], v |-> f.got[2 * i]]], 0))
      [] f.k = "form" -> LET at(n) == {i \in 1..(Len(f.got) \div 2) : f.got[2 * i - 1] = n} IN
                         IF at(NameKey) = {} \/ at(ValuesKey) = {} THEN ErrR
                         ELSE LET c == f.got[2 * CHOOSE i \in at(ValuesKey) : TRUE] IN
                              OkR(VVar(f.got[2 * CHOOSE i \in at(NameKey) : TRUE], Bare(c), 0))
      [] f.k = "some" -> OkR(VVar(SomeName, CUnnamed(f.got), 0))
      [] f.k = "enum" -> OkR(VVar(f.n, Bare(f.got[1]), 0))
      [] f.k = "bits" -> OkR(VBits(f.got, 0))
Fails(r) == res' = r /\ stack' = <<>>
\* the next thing of the innermost open collection
Ask ==
    /\ res = Run /\ Top.rest # <<>>
    /\ asked' = asked + 1
    /\ LET it == Head(Top.rest)
           w == Want(Top, it)
           f == [Top EXCEPT !.rest = Tail(@)]
           o == OpensAs(w, it.x)
           r == Leaf(w, it.x)
       IN IF o # <<>> THEN stack' = SetTop(f) \o o /\ res' = res
          ELSE IF r.r # "ok" THEN Fails(ErrR)
          \* a name other than those of the form of a variant
          ELSE IF f.k = "form" /\ it.w = "key" /\ r.x \notin {NameKey, ValuesKey} THEN Fails(ErrR)
          ELSE stack' = SetTop([f EXCEPT !.got = Append(@, r.x)]) /\ res' = res
    /\ UNCHANGED <<d, as>>
Close ==
    /\ res = Run /\ Top.rest = <<>>
    /\ LET r == Done(Top) IN
       IF r.r # "ok" THEN Fails(ErrR)
       ELSE IF Len(stack) = 1 THEN res' = r /\ stack' = <<>>
       ELSE LET b == Below[Len(Below)] IN stack' = [Below EXCEPT ![Len(Below)] = [b EXCEPT !.got = Append(@, r.x)]] /\ res' = res
    /\ UNCHANGED <<d, as, asked>>
Fault == [r |-> "fault"]
FormatFails == /\ res = Run /\ asked' = asked + 1 /\ Fails(Fault) /\ UNCHANGED <<d, as>>
Next == Ask \/ Close \/ FormatFails
Spec == Init /\ [][Next]_vars /\ WF_vars(Ask \/ Close)

\* how many things there are
RECURSIVE Things(_)
Sum(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)
Things(x) == 1 + CASE IsSeq(x) -> Sum([i \in 1..Len(x.xs) |-> Things(x.xs[i])])
                   [] x.k = "map" -> Sum([i \in 1..Len(x.es) |-> 1 + Things(x.es[i].val)])
                   [] x.k = "struct" -> Sum([i \in 1..Len(x.fs) |-> 1 + Things(x.fs[i].v)])
                   [] x.k \in {"some", "nstruct", "nvar"} -> Things(x.x)
                   [] x.k = "tvar" -> 1 + Sum([i \in 1..Len(x.xs) |-> Things(x.xs[i])])
                   [] x.k = "svar" -> 1 + Sum([i \in 1..Len(x.fs) |-> 1 + Things(x.fs[i].v)])
                   [] OTHER -> 0
Whole_ == FA(as, d, FALSE)
C30Whole == res.r \in {"ok", "err"} => (res.r = Whole_.r /\ (res.r = "ok" => res.x = Whole_.x))
C30Prefix == /\ res.r = "ok" => asked = Things(d)
             /\ asked <= Things(d) + 1
             /\ (res = Run /\ Whole_.r = "ok" /\ asked = Things(d)) => \A i \in 1..Len(stack) : stack[i].rest = <<>>
C30Frames == res = Run <=> stack # <<>>
PropC30Final == [][res # Run => FALSE]_vars
PropC30Ends == <>(res # Run)
=============================================================================
