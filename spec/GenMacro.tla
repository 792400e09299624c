------------------------------ MODULE GenMacro ------------------------------
(* Writes the universe of macro invocations as sessions of one call each    *)
(* (bin/check makes the Rust program that contains them).                   *)
EXTENDS MacroUniverse, Json, IOUtils

Deep == atoi(IOEnv.DEEP)
S == SetToSeq(Macros(Deep))
Cases == [i \in 1..Len(S) |-> [reg |-> <<>>, evs |-> <<[op |-> "macro", t |-> S[i]]>>]]

ASSUME ndJsonSerialize(IOEnv.OUT, Cases)
ASSUME PrintT(<<"GEN", IOEnv.MODE, Len(Cases)>>)
VARIABLE z
Spec == z = 0 /\ [][FALSE]_z
=============================================================================
