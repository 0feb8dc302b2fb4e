--------------------------------- MODULE QF ---------------------------------
(***************************************************************************)
(* Exact arithmetic in a real quadratic field Q(w), with the field given   *)
(* as a parameter  k = <<P, Q, R>> :  w is the positive root of            *)
(* R w^2 = P w + Q.                                                        *)
(*    icosahedral package   <<1,1,1>>   w = tau = (1+sqrt 5)/2             *)
(*    dodecagonal package   <<0,3,4>>   w = sin(pi/3) = sqrt(3)/2          *)
(* An element is <<a, b, c>> (a, b, c are BigInt Zs, c # 0), standing for  *)
(* (a + b w)/c.  "Canonical" is the form the library promises to return:   *)
(* c > 0 and gcd(a, b, c) = 1 (so zero is <<0,0,1>>).  The operators       *)
(* return canonical elements, hence value equality is TLA+ equality.       *)
(*                                                                         *)
(* These are the definitions; java/QF.java overrides QCanon .. QSgn for    *)
(* speed, and SelfTest.tla checks that override and definition agree.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, BigInt

QCanon(x) ==
    LET g  == ZGcd(ZGcd(x[1], x[2]), x[3])
        g1 == IF ZSgn(x[3]) < 0 THEN ZNeg(g) ELSE g
    IN  IF g1 = Z1 THEN x ELSE <<ZQuo(x[1], g1), ZQuo(x[2], g1), ZQuo(x[3], g1)>>

QIsCanon(x) == ZSgn(x[3]) > 0 /\ ZGcd(ZGcd(x[1], x[2]), x[3]) = Z1

QNeg(x) == QCanon(<<ZNeg(x[1]), ZNeg(x[2]), x[3]>>)

QAdd(x, y) == QCanon(<<ZAdd(ZMul(x[1], y[3]), ZMul(y[1], x[3])),
                       ZAdd(ZMul(x[2], y[3]), ZMul(y[2], x[3])),
                       ZMul(x[3], y[3])>>)

QSub(x, y) == QAdd(x, <<ZNeg(y[1]), ZNeg(y[2]), y[3]>>)

\* (a1 + b1 w)(a2 + b2 w) = a1 a2 + (a1 b2 + a2 b1) w + b1 b2 (P w + Q)/R
QMul(k, x, y) ==
    LET bb == ZMul(x[2], y[2])
        zR == ZInt(k[3])
    IN  QCanon(<<ZAdd(ZMul(zR, ZMul(x[1], y[1])), ZMul(ZInt(k[2]), bb)),
                 ZAdd(ZMul(zR, ZAdd(ZMul(x[1], y[2]), ZMul(x[2], y[1]))), ZMul(ZInt(k[1]), bb)),
                 ZMul(zR, ZMul(x[3], y[3]))>>)

\* x # 0.  conjugate of w is P/R - w ; norm (a + b w)(a + b w') = a^2 + a b P/R - b^2 Q/R
QInv(k, x) ==
    LET zP == ZInt(k[1])  zQ == ZInt(k[2])  zR == ZInt(k[3])
    IN  QCanon(<<ZMul(x[3], ZAdd(ZMul(zR, x[1]), ZMul(zP, x[2]))),
                 ZNeg(ZMul(x[3], ZMul(zR, x[2]))),
                 ZSub(ZAdd(ZMul(zR, ZMul(x[1], x[1])), ZMul(zP, ZMul(x[1], x[2]))),
                      ZMul(zQ, ZMul(x[2], x[2])))>>)

\* sign of (a + b w)/c, exactly:  2R(a + b w) = X + Y sqrt D,
\* X = 2R a + P b,  Y = b,  D = P^2 + 4QR
QSgn(k, x) ==
    LET X  == ZAdd(ZMul(ZInt(2 * k[3]), x[1]), ZMul(ZInt(k[1]), x[2]))
        D  == ZInt(k[1] * k[1] + 4 * k[2] * k[3])
        sx == ZSgn(X)
        sy == ZSgn(x[2])
        s  == IF sx = sy THEN sx ELSE IF sx = 0 THEN sy ELSE IF sy = 0 THEN sx
              ELSE LET c == ZCmp(ZMul(X, X), ZMul(D, ZMul(x[2], x[2])))
                   IN  IF c > 0 THEN sx ELSE sy
    IN  IF ZSgn(x[3]) < 0 THEN -s ELSE s
=============================================================================
