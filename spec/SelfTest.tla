------------------------------ MODULE SelfTest ------------------------------
(***************************************************************************)
(* Prints the value of every BigInt and QF operator on operands of all     *)
(* sizes and signs.  It is run twice, with and without the Java overrides; *)
(* the two outputs must be identical.                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, BigInt, QF, Eager

Big == ZMul(ZInt(2147483647), ZInt(2147483647))
Zs == << Z0, Z1, ZInt(-1), ZInt(32767), ZInt(32768), ZInt(-32769), ZInt(720720), ZInt(1073741824),
         Big, ZNeg(ZMul(Big, Big)), ZAdd(ZMul(Big, ZInt(720720)), ZInt(5)) >>
ZAll == [i \in 1..Len(Zs) |-> [j \in 1..Len(Zs) |->
          << ZAdd(Zs[i], Zs[j]), ZSub(Zs[i], Zs[j]), ZMul(Zs[i], Zs[j]), ZCmp(Zs[i], Zs[j]),
             ZGcd(Zs[i], Zs[j]), ZNeg(Zs[i]), ZAbs(Zs[i]),
             IF ZSgn(Zs[j]) = 0 THEN Z0 ELSE ZQuo(Zs[i], Zs[j]) >>]]
Qs == << <<Zs[1], Zs[1], Zs[3]>>, <<Zs[2], Zs[3], Zs[2]>>, <<Zs[7], Zs[4], Zs[8]>>, <<Zs[9], ZInt(-3), ZInt(-6)>>,
         <<ZInt(-144), ZInt(89), Z1>>, <<ZInt(144), ZInt(-89), ZInt(-2)>>, <<Zs[6], Zs[11], Zs[10]>>,
         <<ZInt(97), ZInt(-112), Z1>>, <<Z0, ZInt(4), ZInt(6)>> >>
Ks == << <<1, 1, 1>>, <<0, 3, 4>> >>
QAll == [q \in 1..2 |-> [i \in 1..Len(Qs) |-> [j \in 1..Len(Qs) |->
          << QAdd(Qs[i], Qs[j]), QSub(Qs[i], Qs[j]), QMul(Ks[q], Qs[i], Qs[j]), QCanon(Qs[i]), QNeg(Qs[i]),
             IF i = 1 THEN Z0 ELSE QInv(Ks[q], Qs[i]), QSgn(Ks[q], Qs[i]), QIsCanon(Qs[j]) >>]]]
VARIABLE x
Init == x = 0 /\ PrintT(<<"SELF", ZAll, E(QAll), E({1, 2}), E([i \in {3, 5} |-> i])>>)
Next == FALSE /\ x' = x
Spec == Init /\ [][Next]_x
=============================================================================
