------------------------------- MODULE BigInt -------------------------------
(***************************************************************************)
(* Unbounded integers for TLC, whose own integers are 32-bit.              *)
(*                                                                         *)
(* A Z is a tuple  <<s, d1, .., dn>> : s is the sign (-1, 0 or 1) and      *)
(* d1 (least significant) .. dn # 0 are the digits in base 2^15.  Zero is  *)
(* <<0>>.  The form is canonical, so Z equality is TLA+ equality.          *)
(*                                                                         *)
(* Everything below is defined in TLA+; /verif/java/BigInt.java overrides  *)
(* the operators ZAdd .. ZGcd with java.math.BigInteger for speed.         *)
(* BigIntSelfTest.tla checks that override and definition agree.           *)
(***************************************************************************)
EXTENDS Integers, Sequences

LOCAL B == 32768

Z0 == <<0>>
Z1 == <<1, 1>>

ZSgn(a) == a[1]

----------------------------------------------------------------------------
\* Magnitudes: little-endian digit sequences without leading zeros.

LOCAL Mag(a) == Tail(a)
LOCAL Dig(m, i) == IF i <= Len(m) THEN m[i] ELSE 0

RECURSIVE Strip(_)
LOCAL Strip(m) == IF m = <<>> THEN m
            ELSE IF m[Len(m)] = 0 THEN Strip(SubSeq(m, 1, Len(m) - 1)) ELSE m

LOCAL Mk(s, m0) == LET m == Strip(m0) IN IF m = <<>> THEN <<0>> ELSE <<s>> \o m

RECURSIVE MCmpAt(_, _, _)
LOCAL MCmpAt(x, y, i) == IF i = 0 THEN 0
                   ELSE IF x[i] < y[i] THEN -1
                   ELSE IF x[i] > y[i] THEN 1 ELSE MCmpAt(x, y, i - 1)
LOCAL MCmp(x, y) == IF Len(x) < Len(y) THEN -1
              ELSE IF Len(x) > Len(y) THEN 1 ELSE MCmpAt(x, y, Len(x))

LOCAL Max2(i, j) == IF i > j THEN i ELSE j

RECURSIVE MAddAt(_, _, _, _)
LOCAL MAddAt(x, y, i, c) ==
    IF i > Max2(Len(x), Len(y)) THEN (IF c = 0 THEN <<>> ELSE <<c>>)
    ELSE LET t == Dig(x, i) + Dig(y, i) + c
         IN  <<t % B>> \o MAddAt(x, y, i + 1, t \div B)
LOCAL MAdd(x, y) == MAddAt(x, y, 1, 0)

RECURSIVE MSubAt(_, _, _, _)
LOCAL MSubAt(x, y, i, br) ==            \* x >= y
    IF i > Len(x) THEN <<>>
    ELSE LET t == Dig(x, i) - Dig(y, i) - br
         IN  IF t < 0 THEN <<t + B>> \o MSubAt(x, y, i + 1, 1)
                      ELSE <<t>>     \o MSubAt(x, y, i + 1, 0)
LOCAL MSub(x, y) == Strip(MSubAt(x, y, 1, 0))

RECURSIVE MMulDigit(_, _, _, _)
LOCAL MMulDigit(x, d, i, c) ==
    IF i > Len(x) THEN (IF c = 0 THEN <<>> ELSE <<c>>)
    ELSE LET t == x[i] * d + c IN <<t % B>> \o MMulDigit(x, d, i + 1, t \div B)

RECURSIVE MMulAt(_, _, _)
LOCAL MMulAt(x, y, j) ==
    IF j > Len(y) THEN <<>>
    ELSE MAdd(Strip(MMulDigit(x, y[j], 1, 0)),
              LET r == MMulAt(x, y, j + 1) IN IF r = <<>> THEN r ELSE <<0>> \o r)
LOCAL MMul(x, y) == Strip(MMulAt(x, y, 1))

\* schoolbook division, one base-2^15 digit at a time, the digit by bisection
RECURSIVE QDig(_, _, _, _)
LOCAL QDig(r, y, lo, hi) ==             \* largest q in lo..hi with q*y <= r
    IF lo = hi THEN lo
    ELSE LET m == (lo + hi + 1) \div 2
         IN  IF MCmp(Strip(MMulDigit(y, m, 1, 0)), r) <= 0
             THEN QDig(r, y, m, hi) ELSE QDig(r, y, lo, m - 1)

RECURSIVE MDivAt(_, _, _, _)
LOCAL MDivAt(x, y, i, r) ==             \* <<quotient digits (little endian), remainder>>
    IF i = 0 THEN <<<<>>, r>>
    ELSE LET r1 == Strip(<<x[i]>> \o r)
             q  == QDig(r1, y, 0, B - 1)
             r2 == MSub(r1, Strip(MMulDigit(y, q, 1, 0)))
             w  == MDivAt(x, y, i - 1, r2)
         IN  <<w[1] \o <<q>>, w[2]>>
LOCAL MDiv(x, y) == LET w == MDivAt(x, y, Len(x), <<>>) IN <<Strip(w[1]), w[2]>>

RECURSIVE MGcd(_, _)
LOCAL MGcd(x, y) == IF y = <<>> THEN x ELSE MGcd(y, MDiv(x, y)[2])

----------------------------------------------------------------------------
RECURSIVE NatDigits(_)
LOCAL NatDigits(n) == IF n = 0 THEN <<>> ELSE <<n % B>> \o NatDigits(n \div B)

\* the Z of a TLC integer
ZInt(n) == IF n = 0 THEN <<0>>
           ELSE IF n > 0 THEN <<1>> \o NatDigits(n) ELSE <<-1>> \o NatDigits(-n)

ZNeg(a) == IF a[1] = 0 THEN a ELSE <<-a[1]>> \o Tail(a)

ZAdd(a, b) ==
    IF a[1] = 0 THEN b ELSE IF b[1] = 0 THEN a
    ELSE IF a[1] = b[1] THEN Mk(a[1], MAdd(Mag(a), Mag(b)))
    ELSE LET c == MCmp(Mag(a), Mag(b))
         IN  IF c = 0 THEN <<0>>
             ELSE IF c > 0 THEN Mk(a[1], MSub(Mag(a), Mag(b)))
             ELSE Mk(b[1], MSub(Mag(b), Mag(a)))

ZSub(a, b) == ZAdd(a, ZNeg(b))

ZMul(a, b) == IF a[1] = 0 \/ b[1] = 0 THEN <<0>>
              ELSE Mk(a[1] * b[1], MMul(Mag(a), Mag(b)))

\* -1, 0, 1
ZCmp(a, b) == IF a[1] < b[1] THEN -1 ELSE IF a[1] > b[1] THEN 1
              ELSE IF a[1] = 0 THEN 0
              ELSE a[1] * MCmp(Mag(a), Mag(b))

\* quotient rounded toward zero, b # 0
ZQuo(a, b) == IF a[1] = 0 THEN <<0>>
              ELSE Mk(a[1] * b[1], MDiv(Mag(a), Mag(b))[1])

\* nonnegative; ZGcd(0,0) = 0
ZGcd(a, b) == Mk(1, MGcd(Mag(a), Mag(b)))

ZAbs(a) == IF a[1] < 0 THEN ZNeg(a) ELSE a
=============================================================================
