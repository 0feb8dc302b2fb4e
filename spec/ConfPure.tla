------------------------------ MODULE ConfPure ------------------------------
(***************************************************************************)
(* Conformance of calls to Pure (X01).  Arrays, files and values are       *)
(* recorded by digest.  Events:                                            *)
(*   call     c: the function and digest of its arguments' contents; before, after: the caller's store (a       *)
(*            sequence of [n |-> name, d |-> digest]); r: digest of value  *)
(*   scribble, reseed: by the caller                                       *)
(***************************************************************************)
EXTENDS TraceRun
TheInit == [memo |-> <<>>]
Known(m, c) == {i \in 1..Len(m) : m[i].c = c}
Changed(e) == {i \in 1..Len(e.before) : e.before[i] # e.after[i]}
TheStep(s0, e) ==
    IF e.op = "crash" THEN [v |-> "the process died", st |-> s0]
    ELSE IF e.op # "call" THEN [v |-> "ok", st |-> s0]
    ELSE IF Len(e.before) # Len(e.after) \/ Changed(e) # {}
         THEN [v |-> "the call changed its caller's data: " \o e.c, st |-> s0]
    ELSE LET k == Known(s0.memo, e.c)
         IN  IF k = {} THEN [v |-> "ok", st |-> [memo |-> Append(s0.memo, [c |-> e.c, d |-> e.r])]]
             ELSE IF s0.memo[CHOOSE i \in k : TRUE].d # e.r
                  THEN [v |-> "the same call gives another result: " \o e.c, st |-> s0]
             ELSE [v |-> "ok", st |-> s0]
=============================================================================
