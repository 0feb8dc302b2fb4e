-------------------------------- MODULE Perp --------------------------------
(***************************************************************************)
(* The geometry of the two settings: how a 6D vector is seen in parallel   *)
(* ("external") and perpendicular ("internal") space, and exact            *)
(* measure / position / intersection of simplices in perpendicular space.  *)
(*   ico :  3+3, simplices are tetrahedra,  DIM = 3                        *)
(*   dode:  2+1 and 2+1 (the sixth axis is a formal one), simplices are    *)
(*          triangles in the plane of the first two perpendicular axes,    *)
(*          DIM = 2                                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, Lin

DIM == IF PKG = "ico" THEN 3 ELSE 2

\* projection matrices (rows), entries <<p,q,r>> for (p + q w)/r
LOCAL M(rows) == E([i \in 1..Len(rows) |-> [j \in 1..6 |->
                   F(rows[i][j][1], rows[i][j][2], rows[i][j][3])]])
LOCAL o == <<0,0,1>>   LOCAL i1 == <<1,0,1>>   LOCAL m1 == <<-1,0,1>>
LOCAL w == <<0,1,1>>   LOCAL mw == <<0,-1,1>>  LOCAL mh == <<-1,0,2>>

ParM == IF PKG = "ico"
        THEN M(<< <<i1, w, w, o, m1, o>>, <<w, o, o, i1, w, i1>>, <<o, i1, m1, mw, o, w>> >>)
        ELSE M(<< <<w, i1, o, mh, o, o>>, <<mh, o, i1, w, o, o>>, <<o, o, o, o, i1, o>> >>)
PerpM == IF PKG = "ico"
         THEN M(<< <<w, m1, m1, o, mw, o>>, <<m1, o, o, w, m1, w>>, <<o, w, mw, i1, o, m1>> >>)
         ELSE M(<< <<mw, i1, o, mh, o, o>>, <<mh, o, i1, mw, o, o>>, <<o, o, o, o, o, i1>> >>)

Par(v) == MatVec(ParM, v)
Perp(v) == MatVec(PerpM, v)          \* 3 components
\* the point of perpendicular space in which regions live: DIM components
Pt(v) == SubSeq(Perp(v), 1, DIM)
Pts(vs) == E([i \in 1..Len(vs) |-> Pt(vs[i])])            \* simplex -> its points
ObjPts(obj) == E([i \in 1..Len(obj) |-> Pts(obj[i])])     \* domain -> simplices of points

----------------------------------------------------------------------------
\* Measure.

Det2(u, v) == FSub(FMul(u[1], v[2]), FMul(u[2], v[1]))
\* signed DIM!-fold measure of a simplex given by points
SDet(T) == IF DIM = 3 THEN Dot(VSub(T[4], T[1]), Cross(VSub(T[2], T[1]), VSub(T[3], T[1])))
                      ELSE Det2(VSub(T[2], T[1]), VSub(T[3], T[1]))
LOCAL Fact == IF DIM = 3 THEN F(1, 0, 6) ELSE F(1, 0, 2)
Vol(T) == FMul(Fact, FAbs(SDet(T)))
VolAll(Ts) == FSum([i \in 1..Len(Ts) |-> Vol(Ts[i])])

----------------------------------------------------------------------------
\* Half-spaces.  A half-space is <<n, d>> : { x : n.x - d >= 0 }.

HVal(h, x) == FSub(Dot(h[1], x), h[2])
LOCAL Orient(n, p, q) ==      \* hyperplane through p with normal n, oriented so that q is inside
    LET d == Dot(n, p)
        s == FSgn(FSub(Dot(n, q), d))
    IN  IF s < 0 THEN <<VScale(FI(-1), n), FNeg(d)>> ELSE <<n, d>>
LOCAL Normal3(a, b, c) == Cross(VSub(b, a), VSub(c, a))
LOCAL Normal2(a, b) == LET e == VSub(b, a) IN <<FNeg(e[2]), e[1]>>
\* the DIM+1 facet half-spaces of a non-degenerate simplex
HS(T) == IF DIM = 3
         THEN << Orient(Normal3(T[2], T[3], T[4]), T[2], T[1]),
                 Orient(Normal3(T[1], T[3], T[4]), T[1], T[2]),
                 Orient(Normal3(T[1], T[2], T[4]), T[1], T[3]),
                 Orient(Normal3(T[1], T[2], T[3]), T[1], T[4]) >>
         ELSE << Orient(Normal2(T[2], T[3]), T[2], T[1]),
                 Orient(Normal2(T[1], T[3]), T[1], T[2]),
                 Orient(Normal2(T[1], T[2]), T[1], T[3]) >>

\* 1 strictly inside, 0 on the boundary, -1 outside
Where(T, x) ==
    LET hs == HS(T)
        sg == E([i \in 1..(DIM + 1) |-> FSgn(HVal(hs[i], x))])
    IN  IF \E i \in 1..(DIM + 1) : sg[i] < 0 THEN -1
        ELSE IF \E i \in 1..(DIM + 1) : sg[i] = 0 THEN 0 ELSE 1

----------------------------------------------------------------------------
\* Clipping a simplex by a half-space, into simplices.

\* point of segment pq where h vanishes, vp > 0 > vq the values at the ends
LOCAL Cut(p, q, vp, vq) ==
    LET t == FDiv(vp, FSub(vp, vq)) IN VAdd(p, VScale(t, VSub(q, p)))

LOCAL Idx(sg, P(_)) == SelectSeq([i \in 1..(DIM + 1) |-> i], LAMBDA i : P(sg[i]))

LOCAL Clip3(T, vl, ins, out) ==      \* ins: indices with value > 0 or = 0; out: value < 0
    LET c(a, b) == IF FIsZero(vl[a]) THEN T[a] ELSE Cut(T[a], T[b], vl[a], vl[b])
    IN CASE Len(out) = 0 -> <<T>>
         [] Len(out) = 4 -> <<>>
         [] Len(out) = 3 -> LET a == ins[1]
                            IN  <<<<T[a], c(a, out[1]), c(a, out[2]), c(a, out[3])>>>>
         [] Len(out) = 1 ->
              LET a == ins[1] b == ins[2] d == ins[3] q == out[1]
                  x == c(a, q) y == c(b, q) z == c(d, q)
              IN  << <<T[a], T[b], T[d], x>>, <<T[b], T[d], x, y>>, <<T[d], x, y, z>> >>
         [] Len(out) = 2 ->
              LET a == ins[1] b == ins[2] p == out[1] q == out[2]
                  ap == c(a, p) aq == c(a, q) bp == c(b, p) bq == c(b, q)
              IN  << <<T[a], T[b], bp, bq>>, <<T[a], ap, aq, bp>>, <<T[a], aq, bp, bq>> >>

LOCAL Clip2(T, vl, ins, out) ==
    LET c(a, b) == IF FIsZero(vl[a]) THEN T[a] ELSE Cut(T[a], T[b], vl[a], vl[b])
    IN CASE Len(out) = 0 -> <<T>>
         [] Len(out) = 3 -> <<>>
         [] Len(out) = 2 -> LET a == ins[1] IN <<<<T[a], c(a, out[1]), c(a, out[2])>>>>
         [] Len(out) = 1 -> LET a == ins[1] b == ins[2] q == out[1]
                                x == c(a, q) y == c(b, q)
                            IN  << <<T[a], T[b], x>>, <<T[b], x, y>> >>

NonFlat(Ts) == SelectSeq(Ts, LAMBDA T : ~FIsZero(SDet(T)))

\* the part of simplex T in half-space h, as a sequence of non-degenerate simplices
ClipOne(T, h) ==
    LET vl == E([i \in 1..(DIM + 1) |-> HVal(h, T[i])])
        sg == E([i \in 1..(DIM + 1) |-> FSgn(vl[i])])
    IN  IF \A i \in 1..(DIM + 1) : sg[i] >= 0 THEN <<T>>
        ELSE IF \A i \in 1..(DIM + 1) : sg[i] <= 0 THEN <<>>
        ELSE LET ins == Idx(sg, LAMBDA s : s >= 0)
                 out == Idx(sg, LAMBDA s : s < 0)
             IN  NonFlat(E(IF DIM = 3 THEN Clip3(T, vl, ins, out) ELSE Clip2(T, vl, ins, out)))

ClipAll(Ts, h) == FoldLeft(LAMBDA acc, T : acc \o ClipOne(T, h), <<>>, Ts)

\* T (a simplex) intersected with the convex region given by half-spaces hs
ClipBy(T, hs) == FoldLeft(LAMBDA acc, h : IF acc = <<>> THEN acc ELSE ClipAll(acc, h), <<T>>, hs)

\* the common part of two simplices (points), as non-overlapping simplices
Meet(S, T) == ClipBy(S, HS(T))

\* axis-aligned boxes, to skip clipping of far-apart simplices
FMin(x, y) == IF FLe(x, y) THEN x ELSE y
FMax(x, y) == IF FLe(x, y) THEN y ELSE x
Box(T) == E([c \in 1..DIM |->
            << FoldLeft(LAMBDA a, p : FMin(a, p[c]), T[1][c], T),
               FoldLeft(LAMBDA a, p : FMax(a, p[c]), T[1][c], T) >>])
BoxApart(b1, b2) == \E c \in 1..DIM : FLe(b1[c][2], b2[c][1]) \/ FLe(b2[c][2], b1[c][1])

Boxes(Ts) == E([i \in 1..Len(Ts) |-> Box(Ts[i])])

\* measure of the common region of two lists of simplices (each list non-overlapping)
MeetAll(Ss, Ts) ==
    LET bs == Boxes(Ss)
        bt == Boxes(Ts)
        ht == E([j \in 1..Len(Ts) |-> HS(Ts[j])])
    IN  FoldLeft(LAMBDA acc, i :
            FoldLeft(LAMBDA a2, j :
                IF BoxApart(bs[i], bt[j]) THEN a2 ELSE a2 \o ClipBy(Ss[i], ht[j]),
                acc, [j \in 1..Len(Ts) |-> j]),
            <<>>, [i \in 1..Len(Ss) |-> i])
MeetVol(Ss, Ts) == VolAll(MeetAll(Ss, Ts))

\* no two simplices of the list overlap in a set of positive measure
NoOverlap(Ts) ==
    LET b  == Boxes(Ts)
        hs == E([j \in 1..Len(Ts) |-> HS(Ts[j])])
    IN  \A i \in 1..Len(Ts) : \A j \in (i + 1)..Len(Ts) :
            BoxApart(b[i], b[j]) \/ ClipBy(Ts[i], hs[j]) = <<>>

\* every simplex of Ss lies in the region covered by Ts (non-overlapping)
CoveredBy(Ss, Ts) ==
    LET bt == Boxes(Ts)
        ht == E([j \in 1..Len(Ts) |-> HS(Ts[j])])
    IN  \A i \in 1..Len(Ss) :
            LET b == Box(Ss[i])
            IN  FEq(Vol(Ss[i]),
                    FoldLeft(LAMBDA a, j : IF BoxApart(b, bt[j]) THEN a
                                           ELSE FAdd(a, VolAll(ClipBy(Ss[i], ht[j]))),
                             F0, [j \in 1..Len(Ts) |-> j]))
NoneFlat(Ts) == \A i \in 1..Len(Ts) : ~FIsZero(SDet(Ts[i]))
\* two lists of simplices cover the same region
SameRegion(Ss, Ts) == CoveredBy(Ss, Ts) /\ CoveredBy(Ts, Ss)
=============================================================================
