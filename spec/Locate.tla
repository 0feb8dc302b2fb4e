------------------------------- MODULE Locate -------------------------------
(***************************************************************************)
(* Where points and segments lie, exactly.  Every question has three       *)
(* answers: "yes", "no" (clearly: by more than a margin far above rounding *)
(* and above the tolerances the library documents) and "free" in between,  *)
(* where an implementation working in floating point may answer either.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, Perp

Eps4 == F(1, 0, 10000)
LOCAL Any3(a, b) == IF a = "no" \/ b = "no" THEN "no" ELSE IF a = "yes" /\ b = "yes" THEN "yes" ELSE "free"
And3(s) == FoldLeft(Any3, "yes", s)
Or3(s) == IF \E i \in 1..Len(s) : s[i] = "yes" THEN "yes"
          ELSE IF \A i \in 1..Len(s) : s[i] = "no" THEN "no" ELSE "free"
\* 0 <= x
NonNeg(x) == IF FSgn(x) >= 0 THEN "yes" ELSE IF FLe(x, FNeg(Eps4)) THEN "no" ELSE "free"
Unit(x) == And3(<<NonNeg(x), NonNeg(FSub(F1, x))>>)
IsZero3(x, scale) == IF FIsZero(x) THEN "yes" ELSE IF FLe(scale, FAbs(x)) THEN "no" ELSE "free"

\* barycentric coordinates of x in simplex T (DIM components)
Bary(T, x) == LET a == SDet(T) IN E([i \in 1..(DIM + 1) |-> FDiv(SDet([T EXCEPT ![i] = x]), a)])
InSimplex(T, x) ==
    LET b == Bary(T, x)
        ex == FSub(FSum(E([i \in 1..(DIM + 1) |-> FAbs(b[i])])), F1)
    IN  IF FIsZero(ex) THEN "yes" ELSE IF FLe(Eps4, ex) THEN "no" ELSE "free"
InDomain(Ts, x) == Or3(E([i \in 1..Len(Ts) |-> InSimplex(Ts[i], x)]))

\* the rest: points with three components
MaxF(s) == FoldLeft(FMax, s[1], s)
Sq(v) == Dot(v, v)
\* coordinates (l1, l2, l3) of the foot of x in triangle t, and its height
LOCAL Nrm(t) == Cross(VSub(t[2], t[1]), VSub(t[3], t[1]))
FootBary(t, x) ==
    LET n == Nrm(t)
        nn == Dot(n, n)
        b == FDiv(Dot(Cross(VSub(x, t[1]), VSub(t[3], t[1])), n), nn)
        c == FDiv(Dot(Cross(VSub(t[2], t[1]), VSub(x, t[1])), n), nn)
    IN  E(<<FSub(F1, FAdd(b, c)), b, c>>)
OnTriangle(t, x) ==
    LET n == Nrm(t)
        h == Dot(n, VSub(x, t[1]))                          \* |n| times the height
        ll == MaxF(<<Sq(VSub(t[2], t[1])), Sq(VSub(t[3], t[1])), Sq(VSub(t[3], t[2]))>>)
        b == FootBary(t, x)
        ex == FSub(FSum(E([i \in 1..3 |-> FAbs(b[i])])), F1)
        far == FLe(FMul(Dot(n, n), Dot(n, n)), FMul(FI(400), FMul(FMul(h, h), ll)))
    IN  IF FIsZero(h) /\ FIsZero(ex) THEN "yes"
        ELSE IF far \/ FLe(Eps4, ex) THEN "no" ELSE "free"

\* p # q
OnSegment(p, q, x) ==
    LET d == VSub(q, p)  e == VSub(x, p)
        dd == Sq(d)
        off == Sq(Cross(e, d))                              \* dd * distance^2
    IN  And3(<< IsZero3(off, FMul(F(1, 0, 100000000), FMul(dd, dd))), Unit(FDiv(Dot(e, d), dd)) >>)

CoplanarPts(ps) ==
    LET n == Len(ps)
        m == MaxF(E([i \in 1..n |-> Sq(VSub(ps[i], ps[1]))]))       \* l^2
        \* det^2 against (1e-5 l^3)^2
        q(i, j, k) == Dot(VSub(ps[i], ps[1]), Cross(VSub(ps[j], ps[1]), VSub(ps[k], ps[1])))
        D == {q(i, j, k) : <<i, j, k>> \in {t \in (1..n) \X (1..n) \X (1..n) : t[1] < t[2] /\ t[2] < t[3]}}
        lim == FMul(F(1, 0, 1000000000), FMul(m, FMul(m, m)))
    IN  IF n <= 3 \/ \A x \in D : FIsZero(x) THEN "yes"
        ELSE IF \E x \in D : FLe(lim, FMul(x, x)) THEN "no" ELSE "free"

----------------------------------------------------------------------------
\* Segment p-q against triangle t: [hit |-> yes/no/free, t |-> parameter on the segment]
Crossing(p, q, t) ==
    LET d == VSub(q, p)
        n == Nrm(t)
        den == Dot(d, n)
    IN  IF FIsZero(den) THEN [hit |-> "no", t |-> F0]
        ELSE LET s == FDiv(Dot(VSub(t[1], p), n), den)
                 x == VAdd(p, VScale(s, d))
                 b == FootBary(t, x)
             IN  [hit |-> And3(<<Unit(s), NonNeg(b[1]), NonNeg(b[2]), NonNeg(b[3])>>), t |-> s]

\* Segment p-q against segment u-v
LOCAL Eps3sq == F(1, 0, 10000)                              \* (1e-2)^2, on the distance of the two lines
SegSeg(p, q, u, v) ==
    LET a == VSub(q, p)  b == VSub(v, u)  c == VSub(u, p)
        n == Cross(a, b)
        nn == Dot(n, n)
    IN  IF FIsZero(nn) THEN [hit |-> "no", t |-> F0]
        ELSE LET s == FDiv(Dot(Cross(c, b), n), nn)
                 t == FDiv(Dot(Cross(c, a), n), nn)
                 g == Dot(c, n)
             IN  [hit |-> And3(<<Unit(s), Unit(t), IsZero3(FMul(g, g), FMul(Eps3sq, nn))>>), t |-> s]
=============================================================================
