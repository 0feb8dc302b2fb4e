------------------------------ MODULE ConfSess -----------------------------
(***************************************************************************)
(* Conformance of whole sessions (X02): the store and the files of Session *)
(* with domains of exact perpendicular space in the place of sets of       *)
(* cells.  Events name slots, never data: what an operation was applied to *)
(* is what the specification has in that slot, so a domain that is changed *)
(* behind the user's back, or is not what an earlier step should have      *)
(* produced, is noticed in later steps too.                                *)
(***************************************************************************)
EXTENDS TraceRun, Region, Orbit

Empty == [x \in {} |-> 0]
TheInit == [dom |-> Empty, file |-> Empty, cen |-> Empty]
OpSeq == SetToSeq(Ops)
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Del(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]

Good(r) == IsDomain(r) /\ OkArr(r)
\* recorded domain is exactly w (6D, simplex by simplex), in lowest terms
Exactly(r, w) == IF ~Good(r) THEN "no domain returned"
                 ELSE IF Val(r) # w THEN "not the domain it should be" ELSE IF r.v # w THEN "not in lowest terms" ELSE "ok"
Bag(obj) == E([i \in 1..Len(obj) |-> {obj[i][j] : j \in 1..Len(obj[i])}])

MapObj(f(_), obj) == E([i \in 1..Len(obj) |-> [j \in 1..Len(obj[i]) |-> f(obj[i][j])]])
SameReg(obj, r) ==
    IF ~Good(r) THEN "no domain returned"
    ELSE LET R == ObjPts(Val(r))  S == ObjPts(obj)
         IN  IF ~NoneFlat(R) THEN "a degenerate simplex"
             ELSE IF ~FEq(VolAll(R), VolAll(S)) THEN "the volume changed"
             ELSE IF ~NoOverlap(R) THEN "overlapping simplices"
             ELSE IF ~SameRegion(R, S) THEN "the region changed" ELSE "ok"

D(s0, k) == s0.dom[k]
V(s0, e) ==
    CASE e.op = "crash" -> "the process died"
      [] e.op = "seed" -> "ok"
      [] e.op = "expand" ->
            IF ~Good(e.r) THEN "no domain returned"
            ELSE IF ~OkCanon(e.r) THEN "not in lowest terms"
            ELSE IF SameBag(Bag(e.r.v), OrbitOf(OpSeq, s0.cen[e.i], D(s0, e.i), 3)) THEN "ok" ELSE "not the orbit of the domain"
      [] e.op = "shift" -> LET t == Val(e.a[1]) IN Exactly(e.r, MapObj(LAMBDA v : VAdd(v, t), D(s0, e.i)))
      [] e.op = "sim" -> LET m == Sim(e.a[1].v) IN Exactly(e.r, MapObj(LAMBDA v : MatVec(m, v), D(s0, e.i)))
      [] e.op = "meet" -> MeetVerdict(ObjPts(D(s0, e.i)), ObjPts(D(s0, e.k)), e.r)
      [] e.op = "asym" -> MeetVerdict(ObjPts(D(s0, e.i)), <<Pts(Cone(s0.cen[e.j], Val(e.a[1])))>>, e.r)
      [] e.op = "simplify" -> SameReg(D(s0, e.i), e.r)
      [] e.op = "write" -> IF e.r.k = "exc" THEN "writing failed" ELSE "ok"
      [] e.op = "read" -> IF e.i \notin DOMAIN s0.file THEN "no such file"
                          ELSE IF Good(e.r) /\ Val(e.r) = s0.file[e.i] THEN "ok" ELSE "not what was written"
      [] e.op = "volume" -> IF ~(IsNum(e.r) /\ OkArr(e.r)) THEN "no volume"
                            ELSE IF Val(e.r) = VolAll(ObjPts(D(s0, e.i))) THEN "ok" ELSE "wrong volume"
      \* the centre about which the domain in slot j is an asymmetric part
      [] e.op = "centre" -> "ok"

Next1(s0, e) ==
    CASE e.op = "seed" -> [s0 EXCEPT !.dom = Put(@, e.j, Val(e.a[1]))]
      [] e.op = "centre" -> [s0 EXCEPT !.cen = Put(@, e.j, Val(e.a[1]))]
      [] e.op \in {"expand", "shift", "sim", "simplify", "read"} -> [s0 EXCEPT !.dom = Put(@, e.j, Val(e.r))]
      [] e.op \in {"meet", "asym"} -> IF e.j = 0 THEN s0
                                      ELSE IF e.r.k = "none" THEN [s0 EXCEPT !.dom = Del(@, e.j)] ELSE [s0 EXCEPT !.dom = Put(@, e.j, Val(e.r))]
      [] e.op = "write" -> [s0 EXCEPT !.file = Put(@, e.j, D(s0, e.i))]
      [] OTHER -> s0

TheStep(s0, e) == LET v == V(s0, e) IN [v |-> v, st |-> IF v = "ok" THEN Next1(s0, e) ELSE s0]
=============================================================================
