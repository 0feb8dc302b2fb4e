------------------------------- MODULE ConfGeo ------------------------------
(***************************************************************************)
(* Conformance of the point-location and coplanarity predicates (G01) and  *)
(* of the segment intersection tests and points (G02).  Stateless.         *)
(***************************************************************************)
EXTENDS TraceRun, Locate

TheInit == <<>>
P3(o) == LET v == Val(o) IN E([i \in 1..Len(v) |-> Perp(v[i])])      \* recorded set of vectors -> 3-component points
V3(o) == Perp(Val(o))

Answer(r, want) ==
    IF r.k # "bool" THEN "no answer"
    ELSE IF want = "yes" /\ ~r.v THEN "answered no, but it is so"
    ELSE IF want = "no" /\ r.v THEN "answered yes, but it is clearly not so"
    ELSE "ok"

\* a 6D point at parameter t of the segment a-b
At(a, b, t) == VAdd(a, VScale(t, VSub(b, a)))

Point(seg, x, r, sh) ==
    CASE x.hit = "no" -> IF r.k = "none" THEN "ok" ELSE "a point although nothing meets"
      [] x.hit = "free" -> "ok"
      [] x.hit = "yes" ->
           IF ~(r.k = "arr" /\ r.sh = sh) THEN "no point although they meet"
           ELSE IF ~OkArr(r) THEN "zero denominator"
           ELSE LET v == Val(r)
                    w == IF Len(sh) = 3 THEN v[1] ELSE v
                IN  IF w = VCanon(At(seg[1], seg[2], x.t)) THEN "ok" ELSE "not the common point"

\* crossings of a segment with the three sides of a triangle
Sides(s, t) == E(<<SegSeg(s[1], s[2], t[1], t[2]), SegSeg(s[1], s[2], t[1], t[3]), SegSeg(s[1], s[2], t[2], t[3])>>)
OutlinePoints(seg, x, r) ==          \* x: the three crossings
    LET hs == E([i \in 1..3 |-> x[i].hit])
    IN  IF \E i \in 1..3 : hs[i] = "free" THEN "ok"
        ELSE LET W == {VCanon(At(seg[1], seg[2], x[i].t)) : i \in {j \in 1..3 : hs[j] = "yes"}}
             IN  IF W = {} THEN IF r.k = "none" THEN "ok" ELSE "a point although nothing meets"
                 ELSE IF ~IsVecs(r) THEN "no points although they meet"
                 ELSE IF ~OkArr(r) THEN "zero denominator"
                 ELSE LET v == Val(r)
                          R == {v[i] : i \in 1..Len(v)}
                      IN  IF R = W THEN "ok" ELSE IF W \subseteq R THEN "a point that is not common"
                                                  ELSE "a common point is missing"

Verdict(e) ==
    CASE e.op = "crash" -> "the process died"
      [] e.op = "in_simplex" -> Answer(e.r, InSimplex(Pts(Val(e.a[2])), Pt(Val(e.a[1]))))
      [] e.op = "in_domain" -> Answer(e.r, InDomain(ObjPts(Val(e.a[2])), Pt(Val(e.a[1]))))
      [] e.op = "on_segment" -> LET s == P3(e.a[2]) IN Answer(e.r, OnSegment(s[1], s[2], V3(e.a[1])))
      [] e.op = "on_triangle" -> Answer(e.r, OnTriangle(P3(e.a[2]), V3(e.a[1])))
      [] e.op = "coplanar" -> Answer(e.r, CoplanarPts(P3(e.a[1])))
      [] e.op = "coplanar2" -> Answer(e.r, CoplanarPts(P3(e.a[1]) \o P3(e.a[2])))
      [] e.op = "seg_tri" -> LET s == P3(e.a[1]) IN Answer(e.r, Crossing(s[1], s[2], P3(e.a[2])).hit)
      [] e.op = "seg_tri_point" -> LET s == P3(e.a[1])
                                   IN  Point(Val(e.a[1]), Crossing(s[1], s[2], P3(e.a[2])), e.r, <<1, 6, 3>>)
      [] e.op = "seg_seg" -> LET s == P3(e.a[1]) t == P3(e.a[2]) IN Answer(e.r, SegSeg(s[1], s[2], t[1], t[2]).hit)
      [] e.op = "seg_seg_point" -> LET s == P3(e.a[1]) t == P3(e.a[2])
                                   IN  Point(Val(e.a[1]), SegSeg(s[1], s[2], t[1], t[2]), e.r, <<6, 3>>)
      [] e.op = "seg_outline" -> LET s == P3(e.a[1]) t == P3(e.a[2]) x == Sides(s, t)
                                 IN  Answer(e.r, Or3(E([i \in 1..3 |-> x[i].hit])))
      [] e.op = "seg_outline_points" -> LET s == P3(e.a[1]) t == P3(e.a[2])
                                        IN  OutlinePoints(Val(e.a[1]), Sides(s, t), e.r)

TheStep(s0, e) == [v |-> Verdict(e), st |-> s0]
=============================================================================
