------------------------------- MODULE Trace -------------------------------
(***************************************************************************)
(* Are the recorded sessions of the real library behaviours of the         *)
(* specification?  TRACE names a file with one session per line:           *)
(* [sid, reg, evs], each event a call with its arguments and its outcome   *)
(* `out`; PROP is the property the sessions are judged for.  A session is  *)
(* one behaviour; Step takes the next event if its outcome is allowed and  *)
(* otherwise rejects the session there.                                    *)
(***************************************************************************)
EXTENDS Api, Json, IOUtils

P == IOEnv.PROP
Sessions == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES sid,      \* which session
          l,        \* next event
          st,       \* the user's state
          judged,   \* events the property said something about
          status    \* "run", "done" or "rejected"
vars == <<sid, l, st, judged, status>>

S == Sessions[sid]
Ev == S.evs[l]

Init == /\ sid \in 1..Len(Sessions)
        /\ l = 1 /\ st = Start /\ judged = 0 /\ status = "run"

Step == /\ status = "run" /\ l <= Len(S.evs)
        /\ LET j == Judge(P, S.reg, st, Ev) IN
           IF j = "bad"
           THEN /\ PrintT(<<"REJECT", sid, l>>)
                /\ status' = "rejected"
                /\ UNCHANGED <<sid, l, st, judged>>
           ELSE /\ judged' = judged + (IF j = "ok" THEN 1 ELSE 0)
                /\ st' = After(S.reg, st, Ev)
                /\ l' = l + 1
                /\ UNCHANGED <<sid, status>>

Finish == /\ status = "run" /\ l = Len(S.evs) + 1
          /\ PrintT(<<"DONE", sid, judged>>)
          /\ status' = "done"
          /\ UNCHANGED <<sid, l, st, judged>>

Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
