------------------------------- MODULE Cells -------------------------------
(***************************************************************************)
(* Combinatorics of domains as simplicial sets: a vertex is identified     *)
(* with its exact perpendicular-space position, an edge / facet with the   *)
(* set of its vertices.  Nothing here depends on floating point, on the    *)
(* choice of the 6D vector representing a position, or on any order.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, Perp

\* full three-component perpendicular position of a 6D vector (identity of a vertex)
Key(v) == Perp(v)
Keys(vs) == {Key(vs[i]) : i \in 1..Len(vs)}

\* all sub-simplices with k vertices of every simplex, as a sequence of sequences of 6D vectors
LOCAL Combs(n, k) == SetToSeq({S \in SUBSET (1..n) : Cardinality(S) = k})
LOCAL Pick(T, S) == LET q == SetToSeq(S) IN E([i \in 1..Len(q) |-> T[q[i]]])
SubSimplices(obj, k) ==
    IF obj = <<>> THEN <<>>
    ELSE LET cs == Combs(Len(obj[1]), k)
         IN  E([n \in 1..(Len(obj) * Len(cs)) |->
                 Pick(obj[((n - 1) \div Len(cs)) + 1], cs[((n - 1) % Len(cs)) + 1])])

KeySeq(cells) == E([i \in 1..Len(cells) |-> Keys(cells[i])])
\* number of occurrences of key k in the sequence ks
Count(ks, k) == Cardinality({i \in 1..Len(ks) : ks[i] = k})
\* keys occurring exactly once
Once(ks) == {k \in {ks[i] : i \in 1..Len(ks)} : Count(ks, k) = 1}
NoRepeat(s) == Cardinality({s[i] : i \in 1..Len(s)}) = Len(s)
Range1(s) == {s[i] : i \in 1..Len(s)}

\* the facets on the surface of a domain: those belonging to one simplex only
SurfaceKeys(obj) == Once(KeySeq(SubSimplices(obj, DIM)))

----------------------------------------------------------------------------
\* Border edges.  An edge of a set of triangles is a border edge when the
\* surface ends there or bends there: some triangle containing it has no
\* coplanar neighbour across it.  Points have 3 components here in both
\* settings (Perp), so the same definition serves both.

LOCAL Tri(k) == SetToSeq(k)          \* the three points of a triangle key
Coplanar4(p, q, r, s) == FIsZero(Dot(VSub(s, p), Cross(VSub(q, p), VSub(r, p))))
LOCAL CoplanarTri(k1, k2) ==
    LET t == Tri(k1) IN \A s \in k2 : Coplanar4(t[1], t[2], t[3], s)

LOCAL EdgeKeys(k) == {S \in SUBSET k : Cardinality(S) = 2}
BorderKeys(tris) ==                   \* tris: set of triangle keys
    LET inc == [t \in tris |-> EdgeKeys(t)]
    IN  {ed \in UNION {inc[t] : t \in tris} :
            \E t \in tris : /\ ed \in inc[t]
                            /\ \A u \in tris \ {t} : ed \in inc[u] => ~CoplanarTri(t, u)}

\* position of point x on the line p-q (q # p) as a parameter, if it lies on it
OnLine(p, q, x) == LET d == VSub(q, p) e == VSub(x, p) IN VIsZero(Cross(d, e))
Param(p, q, x) == LET d == VSub(q, p) IN FDiv(Dot(VSub(x, p), d), Dot(d, d))
\* x strictly between p and q, for points of DIM components
Between(p, q, x) ==
    LET d == VSub(q, p) e == VSub(x, p)
        t == FDiv(Dot(e, d), Dot(d, d))
    IN  VEq(e, VScale(t, d)) /\ FSgn(t) > 0 /\ FSgn(FSub(F1, t)) > 0
Inside01(t) == FSgn(t) >= 0 /\ FLe(t, F1)
\* edge key e lies on segment p-q
OnSeg(p, q, ed) == \A x \in ed : OnLine(p, q, x) /\ Inside01(Param(p, q, x))
LOCAL SegLen(p, q, ed) == LET s == SetToSeq(ed) IN FAbs(FSub(Param(p, q, s[1]), Param(p, q, s[2])))

\* verdict on a list of edges (keys) as the joined border of a set of raw border edges
BorderVerdict(raw, out) ==            \* raw: set of edge keys, out: sequence of edge keys
    LET n   == Len(out)
        P   == E([i \in 1..n |-> SetToSeq(out[i])])
        on  == E([i \in 1..n |-> {r \in raw : OnSeg(P[i][1], P[i][2], r)}])
        len(i) == FSum(LET q == SetToSeq(on[i]) IN E([j \in 1..Len(q) |-> SegLen(P[i][1], P[i][2], q[j])]))
    IN  IF \E i \in 1..n : Cardinality(out[i]) # 2 THEN "an edge of zero length"
        ELSE IF \E r \in raw : Cardinality({i \in 1..n : r \in on[i]}) # 1
             THEN "a border edge is missing or covered twice"
        ELSE IF \E i \in 1..n : len(i) # F1 THEN "an edge that is not border"
        ELSE IF \E i, j \in 1..n : /\ i < j
                                   /\ LET c == out[i] \cap out[j]
                                      IN  Cardinality(c) = 1 /\
                                          LET x == CHOOSE x \in c : TRUE
                                              p == CHOOSE p \in out[i] : p # x
                                              q == CHOOSE q \in out[j] : q # x
                                          IN  OnLine(p, q, x) /\ Inside01(Param(p, q, x))
             THEN "collinear consecutive edges not joined"
        ELSE "ok"

----------------------------------------------------------------------------
\* Convex hull of a set of points (DIM components), as non-overlapping
\* simplices: start from an affinely independent simplex and place the
\* remaining points one by one, joining each to the facets it sees.

LOCAL Independent(ps) ==
    CASE Len(ps) = 1 -> TRUE
      [] Len(ps) = 2 -> ~VEq(ps[1], ps[2])
      [] Len(ps) = 3 -> IF DIM = 2 THEN ~FIsZero(Det2(VSub(ps[2], ps[1]), VSub(ps[3], ps[1])))
                        ELSE ~VIsZero(Cross(VSub(ps[2], ps[1]), VSub(ps[3], ps[1])))
      [] Len(ps) = 4 -> ~FIsZero(SDet(ps))
\* greedy affinely independent subset, in order
LOCAL Base(ps) == FoldLeft(LAMBDA acc, p : IF Len(acc) <= DIM /\ Independent(Append(acc, p))
                                           THEN Append(acc, p) ELSE acc, <<ps[1]>>, ps)
LOCAL Without(T, i) == SelectSeq([j \in 1..Len(T) |-> j], LAMBDA j : j # i)
\* outward side of facet i of T: sign of the opposite vertex
LOCAL SideVal(T, i, x) ==             \* > 0 iff x is strictly on the other side of facet i than T[i]
    LET a == SDet(T)
        b == SDet([T EXCEPT ![i] = x])
    IN  FSgn(a) * FSgn(b) < 0
LOCAL FacetSet(T, i) == {T[j] : j \in 1..Len(T)} \ {T[i]}
Hull(ps) ==
    LET b == Base(ps)
    IN  IF Len(b) <= DIM THEN <<>>
        ELSE FoldLeft(LAMBDA hs, x :
                LET fs == E([n \in 1..(Len(hs) * (DIM + 1)) |->
                              FacetSet(hs[((n - 1) \div (DIM + 1)) + 1], ((n - 1) % (DIM + 1)) + 1)])
                    vis == SelectSeq([n \in 1..Len(fs) |-> n], LAMBDA n :
                              SideVal(hs[((n - 1) \div (DIM + 1)) + 1], ((n - 1) % (DIM + 1)) + 1, x)
                              /\ Count(fs, fs[n]) = 1)
                IN  IF \E i \in 1..Len(hs) : x \in Range1(hs[i]) THEN hs
                    ELSE E(hs \o [m \in 1..Len(vis) |-> Append(SetToSeq(fs[vis[m]]), x)]),
             <<E(b)>>, ps)
HullVol(ps) == VolAll(Hull(ps))
\* all points of a domain without repetition
PointSet(Ts) == SetToSeq(UNION {Range1(Ts[i]) : i \in 1..Len(Ts)})
Convex(Ts) == VolAll(Ts) = HullVol(PointSet(Ts))     \* for non-overlapping Ts
=============================================================================
