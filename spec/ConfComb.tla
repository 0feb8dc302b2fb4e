------------------------------ MODULE ConfComb ------------------------------
(***************************************************************************)
(* Conformance of duplicate removal, equivalence tests and removal of      *)
(* vectors (C01), of surface / facet / edge / border extraction (C02), and *)
(* of triangulations, hulls and simplification (C03).  Stateless: every    *)
(* event is judged by the exact definitions of Cells and Perp.             *)
(***************************************************************************)
EXTENDS TraceRun, Cells

TheInit == <<>>

\* a list of 6D vectors out of a recorded array of any nesting
RECURSIVE FlatVecs(_, _)
FlatVecs(v, d) == IF d = 3 THEN v ELSE FoldLeft(LAMBDA a, x : a \o FlatVecs(x, d - 1), <<>>, v)
Vecs(o) == FlatVecs(Val(o), Len(o.sh))

\* recorded result is a sequence of k-vertex cells (k = 1: of vectors)
IsCells(o, k) == IF k = 1 THEN IsVecs(o) ELSE IsObj(o, k)

Dedup(in, r) ==
    IF ~IsVecs(r) THEN "no list of vectors returned"
    ELSE IF ~OkArr(r) THEN "zero denominator"
    ELSE LET w == Val(r)
         IN  IF ~NoRepeat(w) THEN "a vector is returned twice"
             ELSE IF ~(Range1(w) \subseteq Range1(in)) THEN "a vector that was not given"
             ELSE IF Range1(w) # Range1(in) THEN "a vector is lost" ELSE "ok"

DedupPerp(in, r) ==
    IF ~IsVecs(r) THEN "no list of vectors returned"
    ELSE IF ~OkArr(r) THEN "zero denominator"
    ELSE LET w == Val(r)
             kw == E([i \in 1..Len(w) |-> Key(w[i])])
         IN  IF ~(Range1(w) \subseteq Range1(in)) THEN "a vector that was not given"
             ELSE IF ~NoRepeat(kw) THEN "a position is returned twice"
             ELSE IF Range1(kw) # Keys(in) THEN "a position is lost" ELSE "ok"

BoolIs(r, b) == IF r.k # "bool" THEN "no answer" ELSE IF r.v # b THEN "wrong answer" ELSE "ok"

Others(in, gone, r) ==
    IF ~(r.k = "arr" /\ Len(r.sh) = 3 /\ (r.sh[1] = 0 \/ (r.sh[2] = 6 /\ r.sh[3] = 3))) THEN "no list of vectors returned"
    ELSE LET w == IF r.sh[1] = 0 THEN <<>> ELSE Val(r)
             k == SelectSeq(in, LAMBDA x : x \notin Range1(gone))
         IN  IF \E x \in Range1(gone) : x \in Range1(w) THEN "a removed vector is still there"
             ELSE IF Len(w) # Len(k) \/ Range1(w) # Range1(k) THEN "not exactly the other vectors" ELSE "ok"

\* returned k-vertex cells are the wanted keys, each once, each one of the given cells
CellVerdict(cells, want, r, k) ==
    IF ~IsCells(r, k) THEN "no list of cells returned"
    ELSE IF ~OkArr(r) THEN "zero denominator"
    ELSE LET w == Val(r)
             kw == KeySeq(w)
             given == {Range1(cells[i]) : i \in 1..Len(cells)}
         IN  IF \E i \in 1..Len(w) : Range1(w[i]) \notin given THEN "a cell the domain does not have"
             ELSE IF ~NoRepeat(kw) THEN "a cell is returned twice"
             ELSE IF Range1(kw) # want
                  THEN IF \E q \in want : q \notin Range1(kw) THEN "a cell is missing" ELSE "a cell too many"
             ELSE "ok"

\* every sub-cell of every simplex, with multiplicity
AllCells(cells, r, k) ==
    IF ~IsCells(r, k) THEN "no list of cells returned"
    ELSE LET w == Val(r)
             sw == E([i \in 1..Len(w) |-> Range1(w[i])])
             sc == E([i \in 1..Len(cells) |-> Range1(cells[i])])
         IN  IF Len(w) # Len(cells) THEN "wrong number of cells"
             ELSE IF \E x \in Range1(sw) \cup Range1(sc) : Count(sw, x) # Count(sc, x) THEN "wrong cells" ELSE "ok"

Border(tris, r) ==
    IF ~IsObj(r, 2) THEN "no list of edges returned"
    ELSE IF ~OkArr(r) THEN "zero denominator"
    ELSE BorderVerdict(BorderKeys(tris), KeySeq(Val(r)))

\* a triangulation of the hull of the given vectors
Triang(in, r) ==
    LET h == HullVol(SetToSeq({Pt(in[i]) : i \in 1..Len(in)}))
    IN  IF FIsZero(h) THEN IF r.k = "none" THEN "ok" ELSE "simplices from a flat set of points"
        ELSE IF ~IsDomain(r) THEN "no domain returned"
        ELSE IF ~OkArr(r) THEN "zero denominator"
        ELSE LET w == Val(r)
                 ts == ObjPts(w)
             IN  IF \E i \in 1..Len(w) : \E j \in 1..(DIM + 1) : w[i][j] \notin Range1(in) THEN "a vertex that was not given"
                 ELSE IF ~NoneFlat(ts) THEN "a degenerate simplex"
                 ELSE IF ~NoOverlap(ts) THEN "overlapping simplices"
                 ELSE IF VolAll(ts) # h THEN "not the convex hull" ELSE "ok"

VecsOf(obj) == FoldLeft(LAMBDA a, x : a \o x, <<>>, obj)

Simplify(obj, a, r) ==
    LET ts == ObjPts(obj)
    IN  IF Convex(ts) THEN Triang(VecsOf(obj), r)
        ELSE IF r.k = "arr" /\ r.sh = a.sh /\ r.v = a.v THEN "ok"
        ELSE IF IsDomain(r) /\ OkArr(r) /\ VolAll(ObjPts(Val(r))) # VolAll(ts) THEN "the region changed"
        ELSE "a non-convex domain was not returned unchanged"

\* two simplices joined into one: possible exactly when they share a facet one
\* of whose vertices lies between the two other vertices
Merge(S, T, r) ==
    LET ps == Pts(S)  pt == Pts(T)
        com == Range1(ps) \cap Range1(pt)
        can == /\ Cardinality(com) = DIM
               /\ LET p == CHOOSE x \in Range1(ps) : x \notin com
                      q == CHOOSE x \in Range1(pt) : x \notin com
                  IN  \E m \in com : Between(p, q, m)
    IN  IF ~can THEN IF r.k = "none" THEN "ok" ELSE "simplices joined that do not make one"
        ELSE IF ~(r.k = "arr" /\ r.sh = <<DIM + 1, 6, 3>>) THEN "two simplices that make one were not joined"
        ELSE IF ~OkArr(r) THEN "zero denominator"
        ELSE IF SameRegion(<<Pts(Val(r))>>, <<ps, pt>>) THEN "ok" ELSE "the region changed"

\* the facet two simplices share, when they share exactly one
Common(S, T, r) ==
    LET ks == Keys(S)  kt == Keys(T)  com == ks \cap kt
    IN  IF Cardinality(com) > DIM THEN "ok"
        ELSE IF Cardinality(com) < DIM THEN IF r.k = "none" THEN "ok" ELSE "a common facet of simplices that share none"
        ELSE IF ~(r.k = "arr" /\ r.sh = <<DIM, 6, 3>> /\ OkArr(r)) THEN "no common facet"
        ELSE IF Keys(Val(r)) # com THEN "not the common facet"
        ELSE IF Range1(Val(r)) \subseteq Range1(S) \/ Range1(Val(r)) \subseteq Range1(T) THEN "ok" ELSE "a vertex that was not given"

\* two segments with a common end point that lies between the other two ends
JoinSeg(S, T, r) ==
    LET ks == Keys(S)  kt == Keys(T)  com == ks \cap kt
        can == /\ Cardinality(com) = 1
               /\ LET m == CHOOSE x \in com : TRUE
                      p == CHOOSE x \in ks : x \notin com
                      q == CHOOSE x \in kt : x \notin com
                  IN  Between(p, q, m)
    IN  IF ~can THEN IF r.k = "none" THEN "ok" ELSE "segments joined that do not make one"
        ELSE IF ~(r.k = "arr" /\ r.sh = <<2, 6, 3>> /\ OkArr(r)) THEN "two segments that make one were not joined"
        ELSE IF Keys(Val(r)) = (ks \cup kt) \ com THEN "ok" ELSE "the wrong segment"

\* reordering: the same vectors as often, by increasing first perpendicular coordinate
Rising(xs) == \A i \in 1..(Len(xs) - 1) : FLe(xs[i], xs[i + 1])
SameBag(s, t) == Len(s) = Len(t) /\ \A x \in Range1(s) \cup Range1(t) : Count(s, x) = Count(t, x)
SortV(in, r) ==
    IF ~IsVecs(r) \/ ~OkArr(r) THEN "no list of vectors returned"
    ELSE IF ~SameBag(in, Val(r)) THEN "not the given vectors"
    ELSE IF Rising(E([i \in 1..Len(in) |-> Perp(Val(r)[i])[1]])) THEN "ok" ELSE "not in order"
SortO(in, r) ==
    IF ~IsDomain(r) \/ ~OkArr(r) THEN "no domain returned"
    ELSE LET w == Val(r)
             sum1(T) == FSum(E([j \in 1..Len(T) |-> Perp(T[j])[1]]))
         IN  IF ~SameBag(E([i \in 1..Len(in) |-> Range1(in[i])]), E([i \in 1..Len(w) |-> Range1(w[i])])) THEN "not the given simplices"
             ELSE IF ~Rising(E([i \in 1..Len(w) |-> sum1(w[i])])) THEN "simplices not in order"
             ELSE IF \A i \in 1..Len(w) : Rising(E([j \in 1..Len(w[i]) |-> Perp(w[i][j])[1]])) THEN "ok" ELSE "vertices not in order"

\* simplification by hand: the hulls of the listed vertices, one after another
Chosen(in, l) == E([j \in 1..Len(l) |-> in[l[j].v]])
Hand(in, lists, r) ==
    IF ~IsDomain(r) THEN "no domain returned"
    ELSE IF ~OkArr(r) THEN "zero denominator"
    ELSE LET w == Val(r)
             ts == ObjPts(w)
             ch == E([i \in 1..Len(lists) |-> Chosen(in, lists[i].v)])
             hv == E([i \in 1..Len(lists) |-> Hull(SetToSeq({Pt(ch[i][j]) : j \in 1..Len(ch[i])}))])
         IN  IF \E i \in 1..Len(w) : \A k \in 1..Len(ch) : ~(Range1(w[i]) \subseteq Range1(ch[k])) THEN "a simplex not from one of the lists"
             ELSE IF ~NoneFlat(ts) THEN "a degenerate simplex"
             ELSE IF VolAll(ts) # FSum(E([k \in 1..Len(hv) |-> VolAll(hv[k])])) THEN "not the volume of the hulls"
             ELSE IF ~NoOverlap(ts) THEN "overlapping simplices"     \* the lists given make non-overlapping hulls
             ELSE IF \A k \in 1..Len(hv) : CoveredBy(hv[k], ts) THEN "ok" ELSE "a hull is not covered"

Verdict(e) ==
    CASE e.op = "crash" -> "the process died"
      [] e.op = "dedup" -> Dedup(Vecs(e.a[1]), e.r)
      [] e.op = "dedup_perp" -> DedupPerp(Vecs(e.a[1]), e.r)
      [] e.op = "equiv" -> BoolIs(e.r, Keys(Vecs(e.a[1])) = Keys(Vecs(e.a[2])))
      [] e.op = "equiv_vertex" -> BoolIs(e.r, Key(Val(e.a[1])) = Key(Val(e.a[2])))
      [] e.op = "connect" -> BoolIs(e.r, Cardinality(Keys(Val(e.a[1])) \cap Keys(Val(e.a[2]))) = DIM)
      [] e.op = "common" -> Common(Val(e.a[1]), Val(e.a[2]), e.r)
      [] e.op = "join" -> JoinSeg(Val(e.a[1]), Val(e.a[2]), e.r)
      [] e.op = "sort" -> SortV(Vecs(e.a[1]), e.r)
      [] e.op = "sort_obj" -> SortO(Val(e.a[1]), e.r)
      [] e.op = "hand" -> Hand(Vecs(e.a[1]), e.a[2].v, e.r)
      [] e.op = "remove" -> Others(Vecs(e.a[1]), Vecs(e.a[2]), e.r)
      [] e.op = "remove1" -> Others(Vecs(e.a[1]), <<Val(e.a[2])>>, e.r)
      [] e.op = "surface" -> LET o == Val(e.a[1]) cells == SubSimplices(o, DIM)
                             IN  CellVerdict(cells, Once(KeySeq(cells)), e.r, DIM)
      \* distinct cells with n vertices (third argument)
      [] e.op = "unique" -> LET o == Val(e.a[1]) n == e.a[2].v
                                cells == IF e.a[1].sh[2] = n THEN o ELSE SubSimplices(o, n)
                            IN  CellVerdict(cells, Range1(KeySeq(cells)), e.r, n)
      [] e.op = "all_cells" -> AllCells(SubSimplices(Val(e.a[1]), e.a[2].v), e.r, e.a[2].v)
      [] e.op = "border" -> Border(IF DIM = 3 THEN SurfaceKeys(Val(e.a[1])) ELSE Range1(KeySeq(Val(e.a[1]))), e.r)
      [] e.op = "border_tri" -> Border(Range1(KeySeq(Val(e.a[1]))), e.r)
      [] e.op = "triang" -> Triang(Vecs(e.a[1]), e.r)
      [] e.op = "hull" -> Triang(Vecs(e.a[1]), e.r)
      [] e.op = "merge" -> Merge(Val(e.a[1]), Val(e.a[2]), e.r)
      [] e.op = "simplify" -> Simplify(Val(e.a[1]), e.a[1], e.r)

TheStep(s0, e) == [v |-> Verdict(e), st |-> s0]
=============================================================================
