------------------------------ MODULE TraceRun ------------------------------
(***************************************************************************)
(* The trace-checking state machine.  A behaviour is one session: pos      *)
(* events of session sess have been accepted, st is the model state they   *)
(* lead to.  Step(st, e) gives the model's verdict on the next event and   *)
(* the model's next state; the session is accepted iff bad stays "ok" to   *)
(* its end.                                                                *)
(***************************************************************************)
EXTENDS TraceCheck
CONSTANTS Step(_, _), InitSt
VARIABLES sess, pos, st, bad
vars == <<sess, pos, st, bad>>

Init == sess \in 1..Len(Trace) /\ pos = 0 /\ st = InitSt /\ bad = "ok"

Next ==
    /\ bad = "ok"
    /\ pos < Len(Trace[sess].ev)
    /\ LET r == Step(st, Trace[sess].ev[pos + 1])
       IN  /\ IF r.v = "ok" THEN TRUE ELSE PrintT(<<"REJECTED", sess, pos + 1, r.v>>)
           /\ bad' = r.v
           /\ st' = r.st
    /\ pos' = pos + 1
    /\ sess' = sess
Spec == Init /\ [][Next]_vars
=============================================================================
