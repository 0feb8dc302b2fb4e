-------------------------------- MODULE Fld --------------------------------
(***************************************************************************)
(* The number field of the package under verification: QF with the field   *)
(* fixed by the constant PKG ("ico" or "dode").                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, BigInt, QF

CONSTANT PKG

K == IF PKG = "ico" THEN <<1, 1, 1>> ELSE <<0, 3, 4>>

IsElt(x) == x[3] # Z0
Canon(x) == QCanon(x)
IsCanon(x) == QIsCanon(x)

F0 == <<Z0, Z0, Z1>>
F1 == <<Z1, Z0, Z1>>
FW == <<Z0, Z1, Z1>>
\* small constants
F(a, b, c) == QCanon(<<ZInt(a), ZInt(b), ZInt(c)>>)
FI(n) == <<ZInt(n), Z0, Z1>>

FNeg(x) == QNeg(x)
FAdd(x, y) == QAdd(x, y)
FSub(x, y) == QSub(x, y)
FMul(x, y) == QMul(K, x, y)
FInv(x) == QInv(K, x)
FIsZero(x) == x[1] = Z0 /\ x[2] = Z0
FDiv(x, y) == QMul(K, x, QInv(K, y))       \* y # 0
FSgn(x) == QSgn(K, x)
FCmp(x, y) == QSgn(K, QSub(x, y))
FLe(x, y) == FCmp(x, y) <= 0
FLt(x, y) == FCmp(x, y) < 0
FAbs(x) == IF FSgn(x) < 0 THEN QNeg(x) ELSE QCanon(x)
FEq(x, y) == FIsZero(QSub(x, y))           \* also for non-canonical x, y
=============================================================================
