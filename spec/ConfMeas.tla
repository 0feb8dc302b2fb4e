------------------------------ MODULE ConfMeas ------------------------------
(***************************************************************************)
(* Conformance of volumes and areas (M01) and of translation (M02).        *)
(* A session holds a store of domains (the model state): domains are       *)
(* loaded, translated, rotated, re-ordered by the recorded events, and     *)
(* every measure recorded is the exact one of the model's domain.  The     *)
(* model also keeps the measure that each domain must have because of how  *)
(* it was obtained, so that invariance under translation, symmetry and     *)
(* re-ordering is checked along with the value.                            *)
(***************************************************************************)
EXTENDS TraceRun, Group

TheInit == [dom |-> <<>>, vol |-> F0]

\* points given directly by three coordinates; a dodecagonal area is the one in the first two
Flat3(vs) == E([i \in 1..Len(vs) |-> SubSeq(vs[i], 1, DIM)])

\* measure of a recorded domain nested to any depth
Measure(o) ==
    LET x == Val(o)
    IN  CASE Len(o.sh) = 3 -> Vol(Pts(x))
          [] Len(o.sh) = 4 -> VolAll(ObjPts(x))
          [] Len(o.sh) = 5 -> FSum(E([i \in 1..Len(x) |-> VolAll(ObjPts(x[i]))]))

NumVerdict(r, w) ==
    IF ~IsNum(r) THEN "no measure returned"
    ELSE IF ~OkArr(r) THEN "zero denominator"
    ELSE IF Val(r) # w THEN "wrong measure"
    ELSE IF r.v # w THEN "not in lowest terms" ELSE "ok"

ShiftAll(x, t) == E([i \in 1..Len(x) |-> [j \in 1..Len(x[i]) |-> VAdd(x[i][j], t)]])

Verdict(s0, e) ==
    CASE e.op = "crash" -> "the process died"
      [] e.op = "load" -> "ok"
      \* the model's own consistency: the measure follows from the history
      [] e.op = "volume" -> IF Val(e.a[1]) # s0.dom THEN "another domain was measured"
                            ELSE NumVerdict(e.r, s0.vol)
      [] e.op = "measure" -> NumVerdict(e.r, Measure(e.a[1]))
      [] e.op = "measure3" -> NumVerdict(e.r, Vol(Flat3(Val(e.a[1]))))
      [] e.op = "shift" ->
            IF Val(e.a[1]) # s0.dom THEN "another domain was shifted"
            ELSE IF ~(e.r.k = "arr" /\ e.r.sh = e.a[1].sh) THEN "no domain of the same shape"
            ELSE IF ~OkArr(e.r) THEN "zero denominator"
            ELSE LET w == ShiftAll(s0.dom, Val(e.a[2]))
                 IN  IF Val(e.r) # w THEN "not the translated domain"
                     ELSE IF e.r.v # w THEN "not in lowest terms" ELSE "ok"
      \* a rotated / re-ordered copy (its correctness is S01-S03's business) has the same measure
      [] e.op = "moved" -> IF ~(e.r.k = "arr" /\ Len(e.r.sh) = 4) THEN "no domain returned"
                           ELSE IF ~OkArr(e.r) THEN "zero denominator"
                           ELSE IF VolAll(ObjPts(Val(e.r))) # FMul(e.a[2].v, s0.vol) THEN "measure not preserved" ELSE "ok"
      \* shift(expand(D,c),t) and expand(shift(D,t),c+t), as recorded, are the same simplices in the same order
      [] e.op = "same" -> IF e.a[1].k = "arr" /\ e.a[2].k = "arr" /\ e.a[1] = e.a[2] THEN "ok"
                          ELSE "translation and expansion do not commute"

TheStep(s0, e) ==
    LET v == Verdict(s0, e)
    IN  [v |-> v,
         st |-> IF v # "ok" THEN s0
                ELSE CASE e.op = "load" -> LET x == Val(e.a[1]) IN [dom |-> x, vol |-> VolAll(ObjPts(x))]
                       [] e.op = "shift" -> [s0 EXCEPT !.dom = Val(e.r)]     \* same measure
                       [] e.op = "moved" -> [dom |-> Val(e.r), vol |-> FMul(e.a[2].v, s0.vol)]
                       [] OTHER -> s0]
=============================================================================
