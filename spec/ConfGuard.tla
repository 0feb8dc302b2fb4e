------------------------------ MODULE ConfGuard ------------------------------
(***************************************************************************)
(* Conformance of requests to Guard (X03).  Events:                        *)
(*   ask    f: operation, n: rank of its array argument, x: what simplices *)
(*          are in it, ans: "value" | "refused", d: digest of the value's  *)
(*          numbers in order                                               *)
(*   divide a[1], a[2], r                                                  *)
(*   product sh: the two shapes (numbers not counted as an axis), ans      *)
(*   power  sh, ans                                                        *)
(*   store  kind, n, ans, before, after: digest of the file ("" = none)    *)
(*   load   exists, ans                                                    *)
(***************************************************************************)
EXTENDS TraceRun
G == INSTANCE Guard WITH Depth <- 0, Emit <- FALSE, file <- <<>>, hist <- <<>>
TheInit == [memo |-> <<>>]
Ok(s0) == [v |-> "ok", st |-> s0]
No(s0, t) == [v |-> t, st |-> s0]
Due(s0, fits, ans) ==
    IF fits /\ ans # "value" THEN No(s0, "a well-formed request is refused")
    ELSE IF ~fits /\ ans # "refused" THEN No(s0, "a malformed request is answered")
    ELSE Ok(s0)
Chains(a, b) == CASE Len(a) = 1 /\ Len(b) = 1 -> a = b
                  [] Len(a) = 2 /\ Len(b) \in {1, 2} -> a[2] = b[1]
                  [] OTHER -> FALSE
TheStep(s0, e) ==
    CASE e.op = "ask" ->
           LET fits == e.n \in G!Ranks(e.f)
               k == {i \in 1..Len(s0.memo) : s0.memo[i].f = e.f /\ s0.memo[i].x = e.x}
           IN  IF Due(s0, fits, e.ans).v # "ok" THEN No(s0, Due(s0, fits, e.ans).v \o ": " \o e.f)
               ELSE IF ~fits THEN Ok(s0)
               ELSE IF k = {} THEN [v |-> "ok", st |-> [s0 EXCEPT !.memo = Append(@, [f |-> e.f, x |-> e.x, d |-> e.d])]]
               ELSE IF s0.memo[CHOOSE i \in k : TRUE].d # e.d
                    THEN No(s0, "the same simplices nested otherwise give another result: " \o e.f)
               ELSE Ok(s0)
      [] e.op = "divide" ->
           IF ~(IsNum(e.a[1]) /\ IsNum(e.a[2])) THEN No(s0, "harness")
           ELSE Due(s0, ~(e.a[2].v[1] = Z0 /\ e.a[2].v[2] = Z0),
                    IF e.r.k \in {"none", "exc"} THEN "refused" ELSE "value")
      [] e.op = "product" -> Due(s0, Chains(e.sh[1], e.sh[2]), e.ans)
      [] e.op = "power" -> Due(s0, Len(e.sh) = 2 /\ e.sh[1] = e.sh[2], e.ans)
      [] e.op = "store" ->
           LET fits == e.n \in G!FileRanks(e.kind)
           IN  IF Due(s0, fits, e.ans).v # "ok" THEN Due(s0, fits, e.ans)
               ELSE IF ~fits /\ e.before # e.after THEN No(s0, "a refused request touched a file")
               ELSE IF fits /\ e.after = "" THEN No(s0, "an accepted request wrote nothing")
               ELSE Ok(s0)
      [] e.op = "load" -> Due(s0, e.exists, e.ans)
      [] OTHER -> No(s0, "the process died")
=============================================================================
