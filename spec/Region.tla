------------------------------- MODULE Region -------------------------------
(***************************************************************************)
(* Domains as regions of perpendicular space: what an intersection or the  *)
(* part inside a cone is, exactly.                                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TraceCheck

\* verdict on a recorded result r as a decomposition of the common region of
\* the domains Ss and Ts (lists of simplices of points)
MeetVerdict(Ss, Ts, r) ==
    LET v == MeetVol(Ss, Ts)
    IN  IF FIsZero(v) THEN IF r.k = "none" THEN "ok" ELSE "a domain although there is no common volume"
        ELSE IF ~IsDomain(r) THEN "no domain although there is a common volume"
        ELSE IF ~OkArr(r) THEN "zero denominator"
        ELSE LET R == ObjPts(Val(r))
                 w == VolAll(R)
             IN  IF ~NoneFlat(R) THEN "a degenerate simplex"
                 ELSE IF ~FEq(w, v) THEN IF FLt(w, v) THEN "part of the common region is missing" ELSE "more than the common region"
                 ELSE IF ~CoveredBy(R, Ss) THEN "not inside the first domain"
                 ELSE IF ~CoveredBy(R, Ts) THEN "not inside the second domain"
                 ELSE IF ~NoOverlap(R) THEN "overlapping simplices"
                 ELSE IF ~OkCanon(r) THEN "not in lowest terms"
                 ELSE "ok"

\* the tetrahedron  pos, pos + 5 v1, pos + 5 v2, pos + 5 v3
Cone(pos, vs) == <<pos, VAdd(pos, VScale(FI(5), vs[1])), VAdd(pos, VScale(FI(5), vs[2])), VAdd(pos, VScale(FI(5), vs[3]))>>
=============================================================================
