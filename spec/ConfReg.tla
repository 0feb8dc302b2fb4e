------------------------------- MODULE ConfReg ------------------------------
(***************************************************************************)
(* Conformance of intersections (B01, B02), convex intersections (B03) and *)
(* asymmetric parts (B04).  State: the last exactly known volume, so that  *)
(* an expansion of an asymmetric part can be compared with it.             *)
(***************************************************************************)
EXTENDS TraceRun, Region

TheInit == [vol |-> F0]

V(s0, e) ==
    CASE e.op = "crash" -> "the process died"
      [] e.op = "meet" -> MeetVerdict(ObjPts(Val(e.a[1])), ObjPts(Val(e.a[2])), e.r)
      [] e.op = "cone" -> MeetVerdict(ObjPts(Val(e.a[1])), <<Pts(Cone(Val(e.a[2]), Val(e.a[3])))>>, e.r)
      [] e.op = "whole" -> "ok"
      \* expansion by all operations of the part in a fundamental cone has the volume of the whole
      [] e.op = "expanded" -> IF ~IsDomain(e.r) THEN "no domain returned"
                              ELSE IF FEq(VolAll(ObjPts(Val(e.r))), s0.vol) THEN "ok"
                              ELSE "expanding the asymmetric part does not restore the volume"

TheStep(s0, e) == [v |-> V(s0, e), st |-> IF e.op = "whole" THEN [vol |-> VolAll(ObjPts(Val(e.a[1])))] ELSE s0]
=============================================================================
