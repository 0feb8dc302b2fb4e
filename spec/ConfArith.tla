----------------------------- MODULE ConfArith -----------------------------
(***************************************************************************)
(* Conformance of the scalar arithmetic (A01, A02).  The machine has       *)
(* registers; an event reads two operands, from outside (register index 0) *)
(* or from registers, and may write its result to a register, so chains of *)
(* operations feed the implementation its own results.                     *)
(***************************************************************************)
EXTENDS TraceRun

TheInit == <<>>

Exact(op, x, y) == CASE op = "add" -> FAdd(x, y)
                     [] op = "sub" -> FSub(x, y)
                     [] op = "mul" -> FMul(x, y)
                     [] op = "div" -> FDiv(x, y)

Src(regs, i, o) == i = 0 \/ (IsNum(o) /\ regs[i] = o.v)

Verdict(regs, e) ==
    IF ~(Src(regs, e.i[1], e.a[1]) /\ Src(regs, e.i[2], e.a[2])) THEN "operand is not the register's value"
    ELSE LET x == e.a[1].v  y == e.a[2].v
         IN  IF e.op = "div" /\ FIsZero(y)
             THEN (IF e.r.k \in {"none", "exc"} THEN "ok" ELSE "division by zero yields a number")
             ELSE IF ~IsNum(e.r) THEN "no number returned"
             ELSE IF ~OkArr(e.r) THEN "zero denominator"
             ELSE IF ~FEq(e.r.v, Exact(e.op, x, y)) THEN "wrong value"
             ELSE IF ~IsCanon(e.r.v) THEN "not in lowest terms with positive denominator"
             ELSE "ok"

TheStep(regs, e) ==
    IF e.op = "load" THEN [v |-> "ok", st |-> [i \in 1..Len(e.a) |-> e.a[i].v]]
    ELSE IF e.op = "crash" THEN [v |-> "the process died", st |-> regs]
    ELSE LET v == Verdict(regs, e)
         IN  [v |-> v, st |-> IF v = "ok" /\ e.d > 0 /\ e.r.k = "arr" THEN [regs EXCEPT ![e.d] = e.r.v] ELSE regs]
=============================================================================
