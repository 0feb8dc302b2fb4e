------------------------------ MODULE ConfProj ------------------------------
(***************************************************************************)
(* Conformance of projections and of the floating-point views (A04).       *)
(* ProjModel* state, on the exact side, that the two projections are what  *)
(* the setting needs; they are checked by TLC as ASSUMEs.                  *)
(***************************************************************************)
EXTENDS TraceRun

TheInit == 0

----------------------------------------------------------------------------
\* Facts about the specification itself.
\* the rows of ParM and PerpM are mutually orthogonal, with equal norms in each space
LOCAL d3 == IF PKG = "ico" THEN 3 ELSE 2
ASSUME \A i, j \in 1..3 : FIsZero(Dot(ParM[i], PerpM[j]))
        \/ (PKG = "dode" /\ i < 3 /\ j < 3)
ASSUME \A i, j \in 1..d3 : i # j =>
        (PKG = "ico" => FIsZero(Dot(ParM[i], ParM[j])) /\ FIsZero(Dot(PerpM[i], PerpM[j])))
ASSUME PKG = "ico" => \A i, j \in 1..3 : Dot(ParM[i], ParM[i]) = Dot(PerpM[j], PerpM[j])

\* orthogonal projector of 6D onto perpendicular space (icosahedral), entries from PerpM:
\* P = PerpM^T PerpM / |row|^2
PerpProj == LET n == FInv(Dot(PerpM[1], PerpM[1]))
            IN  E([i \in 1..6 |-> [j \in 1..6 |->
                  FMul(n, Dot(Col(PerpM, i), Col(PerpM, j)))]])
ASSUME PKG = "ico" => MatMul(PerpProj, PerpProj) = PerpProj
ASSUME PKG = "ico" => MatMul(PerpM, PerpProj) = PerpM
ASSUME PKG = "ico" => \A i \in 1..3 : VIsZero(MatVec(PerpProj, ParM[i]))

----------------------------------------------------------------------------
Nothing == [k |-> "nothing"]
Some(sh, v) == [k |-> "val", sh |-> sh, v |-> E(v)]

Exact(e) ==
    LET x == Val(e.a[1])
    IN CASE e.op = "projection" -> Some(<<2, 3, 3>>, <<Par(x), Perp(x)>>)
         [] e.op = "projection3" -> Some(<<3, 3>>, Perp(x))
         [] e.op = "projection_perp" -> Some(<<6, 3>>, MatVec(PerpProj, x))
ExactOps == {"projection", "projection3", "projection_perp"}

\* float arrays
FA(o) == E([i \in 1..Len(o.v) |-> Fl(o.v[i])])
FAA(o) == E([i \in 1..Len(o.v) |-> [j \in 1..Len(o.v[i]) |-> Fl(o.v[i][j])]])
FAAA(o) == E([i \in 1..Len(o.v) |-> [j \in 1..Len(o.v[i]) |-> [c \in 1..Len(o.v[i][j]) |-> Fl(o.v[i][j][c])]]])

Norm2(v) == Dot(v, v)
Both(v) == Par(v) \o Perp(v)
Area2(t) == FMul(F(1, 0, 4), Norm2(Cross(VSub(t[2], t[1]), VSub(t[3], t[1]))))
VolT(t) == FMul(F(1, 0, 6), FAbs(Dot(VSub(t[4], t[1]), Cross(VSub(t[2], t[1]), VSub(t[3], t[1])))))
P3(t) == E([i \in 1..Len(t) |-> Perp(t[i])])
PD(t) == E([i \in 1..Len(t) |-> Pt(t[i])])
SqMax(s) == FoldLeft(FMax, F0, s)

\* what a floating-point view must be close to: a number, its square, a vector, or a set of vectors
View(e) ==
    LET x == Val(e.a[1])
        y == Val(e.a[2])
    IN CASE e.op = "numeric_value" -> [k |-> "num", v |-> x]
         [] e.op = "numerical_vector" -> [k |-> "vec", v |-> x]
         [] e.op = "numerical_vectors" -> [k |-> "mat", v |-> x]
         [] e.op = "length_numerical" -> [k |-> "root", v |-> Norm2(x)]
         [] e.op = "get_internal_component_numerical" -> [k |-> "vec", v |-> Perp(x)]
         [] e.op = "get_internal_component_sets_numerical" -> [k |-> "mat", v |-> P3(x)]
         [] e.op = "projection_numerical" -> [k |-> "vec", v |-> Both(FA(e.a[1]))]
         [] e.op = "projection_sets_numerical" ->
              [k |-> "mat", v |-> E([i \in 1..Len(e.a[1].v) |-> Both(FAA(e.a[1])[i])])]
         [] e.op = "projection3_numerical" -> [k |-> "vec", v |-> Perp(FA(e.a[1]))]
         [] e.op = "projection3_sets_numerical" -> [k |-> "mat", v |-> P3(FAA(e.a[1]))]
         [] e.op = "triangle_area" -> [k |-> "root", v |-> Area2(x)]
         [] e.op = "triangle_area_numerical" -> [k |-> "root", v |-> Area2(FAA(e.a[1]))]
         [] e.op = "tetrahedron_volume_numerical" -> [k |-> "num", v |-> VolT(FAA(e.a[1]))]
         [] e.op = "obj_volume_numerical" ->
              [k |-> "num", v |-> FSum(E([i \in 1..Len(e.a[1].v) |-> VolT(FAAA(e.a[1])[i])]))]
         [] e.op = "simplex_volume_6d_numerical" -> [k |-> "num", v |-> Vol(PD(x))]
         [] e.op = "obj_volume_6d_numerical" ->
              [k |-> "num", v |-> FSum(E([i \in 1..Len(x) |-> Vol(PD(x[i]))]))]
         [] e.op = "distance_in_perp_space" -> [k |-> "root", v |-> Norm2(Perp(VSub(x, y)))]
         [] e.op = "ball_radius" ->
              [k |-> "root", v |-> SqMax(E([i \in 1..Len(x) |-> Norm2(Perp(VSub(x[i], y)))]))]
         [] e.op = "ball_radius_obj" ->
              [k |-> "root", v |-> SqMax(E([i \in 1..Len(x) |->
                   SqMax(E([j \in 1..Len(x[i]) |-> Norm2(Perp(VSub(x[i][j], y)))]))]))]

ViewVerdict(e) ==
    LET w == View(e)
    IN  CASE w.k = "num" -> IF e.r.k \notin {"float", "int"} THEN "no number returned"
                            ELSE IF ~CloseF(IF e.r.k = "float" THEN Fl(e.r.v) ELSE <<e.r.v, Z0, Z1>>, w.v, Tol9)
                                 THEN "float differs from the exact value" ELSE "ok"
          [] w.k = "root" -> IF e.r.k \notin {"float", "int"} THEN "no number returned"
                             ELSE LET f == IF e.r.k = "float" THEN Fl(e.r.v) ELSE <<e.r.v, Z0, Z1>>
                                  IN  IF FSgn(f) < 0 \/ ~CloseF(FMul(f, f), w.v, Tol9)
                                      THEN "float differs from the exact value" ELSE "ok"
          [] w.k = "vec" -> IF ~(e.r.k = "farr" /\ e.r.sh = <<Len(w.v)>>) THEN "wrong shape"
                            ELSE IF \E i \in 1..Len(w.v) : ~CloseF(Fl(e.r.v[i]), w.v[i], Tol9)
                                 THEN "float differs from the exact value" ELSE "ok"
          [] w.k = "mat" -> IF ~(e.r.k = "farr" /\ e.r.sh = <<Len(w.v), Len(w.v[1])>>) THEN "wrong shape"
                            ELSE IF \E i \in 1..Len(w.v), j \in 1..Len(w.v[1]) :
                                        ~CloseF(Fl(e.r.v[i][j]), w.v[i][j], Tol9)
                                 THEN "float differs from the exact value" ELSE "ok"

Verdict(e) ==
    IF e.op = "crash" THEN "the process died"
    ELSE IF e.op \in ExactOps
    THEN LET x == Exact(e)
         IN  IF ~(e.r.k = "arr" /\ e.r.sh = x.sh) THEN "no result of the right shape"
             ELSE IF ~OkArr(e.r) THEN "zero denominator"
             ELSE IF Val(e.r) # x.v THEN "wrong projection"
             ELSE IF e.r.v # x.v THEN "not in lowest terms" ELSE "ok"
    ELSE ViewVerdict(e)

TheStep(s0, e) == [v |-> Verdict(e), st |-> s0]
=============================================================================
