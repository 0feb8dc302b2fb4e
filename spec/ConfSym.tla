------------------------------ MODULE ConfSym ------------------------------
(***************************************************************************)
(* Conformance of symmetry operations (S01, S02), of symmetry expansion    *)
(* (S03), of site symmetry and cosets (S04) and of similarity              *)
(* transformations (S05).  The model state is the implementation's own     *)
(* numbering of the operations, fixed by the first event of a session.     *)
(***************************************************************************)
EXTENDS TraceRun, Orbit

TheInit == <<>>
TheOps == Ops

Small(o) == o.k = "arr" /\ o.sh = <<6, 6>>
\* recorded integer matrix as TLC integers (entries of operations are in -1..1)
ToSmall(o) == E([i \in 1..6 |-> [j \in 1..6 |->
                IF o.v[i][j] = Z0 THEN 0 ELSE IF o.v[i][j] = Z1 THEN 1 ELSE IF o.v[i][j] = ZInt(-1) THEN -1 ELSE 99]])

OpsVerdict(e) ==
    IF e.r.k # "list" THEN "no list of operations"
    ELSE IF \E i \in 1..Len(e.r.v) : ~Small(e.r.v[i]) THEN "an operation is not an integer 6x6 matrix"
    ELSE IF Len(e.r.v) # Order THEN "wrong number of operations"
    ELSE LET got == E([i \in 1..Order |-> ToSmall(e.r.v[i])])
         IN  IF {got[i] : i \in 1..Order} # TheOps THEN "the operations are not the symmetry group"
             ELSE IF got[1] # IId THEN "the first operation is not the identity" ELSE "ok"

ImageVerdict(e, m, x, c) ==
    IF ~(e.r.k = "arr" /\ e.r.sh = x.sh) THEN "no image of the same shape"
    ELSE IF ~OkArr(e.r) THEN "zero denominator"
    ELSE LET w == Img(m, Val(c), Val(x), Len(x.sh) - 1)
         IN  IF Val(e.r) # w THEN "wrong image" ELSE IF e.r.v # w THEN "not in lowest terms" ELSE "ok"

----------------------------------------------------------------------------
ExpandVerdict(e, ms, x, c) ==
    IF ~(e.r.k = "arr" /\ Len(e.r.sh) \in {4, 5} /\ e.r.sh[Len(e.r.sh)] = 3 /\ e.r.sh[Len(e.r.sh) - 1] = 6
         /\ e.r.sh[Len(e.r.sh) - 2] = x.sh[Len(x.sh) - 2])
    THEN "no domain returned"
    ELSE IF ~OkArr(e.r) THEN "zero denominator"
    ELSE IF ~OkCanon(e.r) THEN "not in lowest terms"
    ELSE IF ~SameBag(Flat(e.r), OrbitOf(ms, Val(c), Val(x), Len(x.sh) - 1))
    THEN "not the orbit of the domain" ELSE "ok"

\* the orbit of vectors
EquivVerdict(e, ms, x, c, perp) ==
    IF ~IsVecs(e.r) THEN "no vectors returned"
    ELSE IF ~OkArr(e.r) THEN "zero denominator"
    ELSE IF ~OkCanon(e.r) THEN "not in lowest terms"
    ELSE LET vs == IF Len(x.sh) = 2 THEN <<Val(x)>> ELSE Val(x)
             all == { Img(ms[g], Val(c), vs[i], 1) : g \in 1..Len(ms), i \in 1..Len(vs) }
             got == { e.r.v[i] : i \in 1..Len(e.r.v) }
         IN  IF ~(got \subseteq all) THEN "a vector is no image"
             ELSE IF ~perp THEN
                 (IF got # all THEN "an image is missing"
                  ELSE IF Cardinality(got) # Len(e.r.v) THEN "an image is repeated" ELSE "ok")
             ELSE LET pg == { Perp(v) : v \in got }
                  IN  IF pg # { Perp(v) : v \in all } THEN "an image is missing"
                      ELSE IF Cardinality(pg) # Len(e.r.v) THEN "an image is repeated" ELSE "ok"

----------------------------------------------------------------------------
\* site symmetry
IsIntF(x) == x[2] = Z0 /\ x[3] = Z1
Latt(v) == \A i \in 1..6 : IsIntF(v[i])
Fixes(m, v) == Latt(VSub(MatVec(OverF(m), v), v))
RECURSIVE IsIdxList(_)
IsIdxList(o) == o.k = "list" /\ \A i \in 1..Len(o.v) : o.v[i].k = "int" /\ o.v[i].v # Z0 => (o.v[i].v[1] = 1 /\ Len(o.v[i].v) = 2)
\* recorded list of indices -> sequence of 1-based operation numbers
ToIdx(o) == E([i \in 1..Len(o.v) |-> 1 + (IF o.v[i].v = Z0 THEN 0 ELSE o.v[i].v[2])])
LittleGroup(ms, v) == { g \in 1..Len(ms) : Fixes(ms[g], v) }

SiteVerdict(o, ms, v) ==
    IF ~IsIdxList(o) THEN "no list of operation numbers"
    ELSE LET l == ToIdx(o)
         IN  IF {l[i] : i \in 1..Len(l)} # LittleGroup(ms, v) THEN "not the site-symmetry group"
             ELSE IF Cardinality({l[i] : i \in 1..Len(l)}) # Len(l) THEN "an operation is repeated" ELSE "ok"
CosetVerdict(o, ms, v) ==
    IF ~IsIdxList(o) THEN "no list of operation numbers"
    ELSE LET l == ToIdx(o)
             h == LittleGroup(ms, v)
             cos(g) == { IMul(ms[g], ms[x]) : x \in h }
         IN  IF \E i \in 1..Len(l) : l[i] \notin 1..Len(ms) THEN "no such operation"
             ELSE IF Len(l) = 0 THEN "no representatives"
             ELSE IF ms[l[1]] # IId THEN "the representatives do not start with the identity"
             ELSE IF Len(l) * Cardinality(h) # Len(ms) THEN "wrong number of cosets"
             ELSE IF UNION { cos(l[i]) : i \in 1..Len(l) } # TheOps THEN "a coset is missing" ELSE "ok"

----------------------------------------------------------------------------
SimVerdict(e) ==
    LET x == e.a[1]
        s == Sim(e.a[2].v)
        one(v) == MatVec(s, v)
        d == Len(x.sh) - 1
        y == Val(x)
        w == IF d = 1 THEN one(y)
             ELSE IF d = 2 THEN E([i \in 1..Len(y) |-> one(y[i])])
             ELSE E([i \in 1..Len(y) |-> [j \in 1..Len(y[i]) |-> one(y[i][j])]])
    IN  IF ~(e.r.k = "arr" /\ e.r.sh = x.sh) THEN "no image of the same shape"
        ELSE IF ~OkArr(e.r) THEN "zero denominator"
        ELSE IF Val(e.r) # w THEN "wrong similarity image" ELSE IF e.r.v # w THEN "not in lowest terms" ELSE "ok"

Verdict(ms, e) ==
    CASE e.op = "crash" -> "the process died"
      [] e.op = "ops" -> OpsVerdict(e)
      [] e.op = "apply" -> ImageVerdict(e, ms[e.a[1].v + 1], e.a[2], e.a[3])
      [] e.op = "expand" -> IF e.r.k = "arr" /\ Len(e.r.sh) # 4 THEN "not nested as a domain" ELSE ExpandVerdict(e, ms, e.a[1], e.a[2])
      [] e.op = "expand_list" ->
            ExpandVerdict(e, E([i \in 1..Len(e.a[3].v) |-> ms[e.a[3].v[i].v + 1]]), e.a[1], e.a[2])
      [] e.op = "equivalent_vec" -> EquivVerdict(e, ms, e.a[1], e.a[2], FALSE)
      [] e.op = "equivalent_vectors" -> EquivVerdict(e, ms, e.a[1], e.a[2], TRUE)
      [] e.op = "site_symmetry" -> SiteVerdict(e.r, ms, Val(e.a[1]))
      [] e.op = "coset" -> CosetVerdict(e.r, ms, Val(e.a[1]))
      [] e.op = "site_symmetry_and_coset" ->
            IF ~(e.r.k = "list" /\ Len(e.r.v) = 2) THEN "no pair of lists"
            ELSE LET a == SiteVerdict(e.r.v[1], ms, Val(e.a[1]))
                 IN  IF a # "ok" THEN a ELSE CosetVerdict(e.r.v[2], ms, Val(e.a[1]))
      [] e.op = "similarity" -> SimVerdict(e)

TheStep(ms, e) ==
    LET v == Verdict(ms, e)
    IN  [v |-> v,
         st |-> IF e.op = "ops" /\ v = "ok" THEN E([i \in 1..Order |-> ToSmall(e.r.v[i])]) ELSE ms]
=============================================================================
