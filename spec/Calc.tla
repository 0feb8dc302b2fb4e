-------------------------------- MODULE Calc --------------------------------
(***************************************************************************)
(* A register machine over the exact field: the specification of the       *)
(* arithmetic as a state machine.  Model checking it establishes that the  *)
(* reference arithmetic is a field with unique canonical representatives   *)
(* (CanonInv, Laws) on everything reachable, and prints the histories that *)
(* are then replayed into the implementation.                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, Fld

CONSTANTS Depth, Emit
VARIABLES regs, hist

Lits == << F(1, 1, 2), F(-3, 2, 1), F(0, -1, 3), F(2, 0, 5) >>
NR == 3
Ops == {"add", "sub", "mul", "div"}
Do(op, x, y) == CASE op = "add" -> FAdd(x, y) [] op = "sub" -> FSub(x, y)
                  [] op = "mul" -> FMul(x, y) [] op = "div" -> FDiv(x, y)

Init == /\ \E a, b, c \in 1..Len(Lits) : a < b /\ regs = <<Lits[a], Lits[b], Lits[c]>>
                                         /\ hist = <<<<a, b, c>>>>
Next == /\ Len(hist) <= Depth
        /\ \E op \in Ops, i, j, d \in 1..NR :
              /\ ~(op = "div" /\ FIsZero(regs[j]))
              /\ regs' = [regs EXCEPT ![d] = Do(op, regs[i], regs[j])]
              /\ hist' = Append(hist, <<op, i, j, d>>)
Spec == Init /\ [][Next]_<<regs, hist>>

CanonInv == \A i \in 1..NR : IsCanon(regs[i])
Laws == \A i, j, k \in 1..NR :
    LET x == regs[i] y == regs[j] t == regs[k]
    IN  /\ FSub(FAdd(x, y), y) = x
        /\ FIsZero(y) \/ FMul(FDiv(x, y), y) = x
        /\ FMul(x, FAdd(y, t)) = FAdd(FMul(x, y), FMul(x, t))
        /\ FMul(x, y) = FMul(y, x) /\ FAdd(x, y) = FAdd(y, x)
        /\ (FSgn(x) > 0 /\ FSgn(y) > 0) => (FSgn(FMul(x, y)) > 0 /\ FSgn(FAdd(x, y)) > 0)
        /\ (FSgn(x) = 0) <=> FIsZero(x)
        /\ FSgn(FSub(x, y)) = -FSgn(FSub(y, x))
EmitInv == IF Emit /\ Len(hist) = Depth + 1 THEN PrintT("HIST " \o ToJson(hist)) ELSE TRUE
=============================================================================
