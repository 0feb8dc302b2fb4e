----------------------------- MODULE TraceCheck -----------------------------
(***************************************************************************)
(* Reading recorded executions of the implementation.  The trace file      *)
(* (environment variable TRACE) has one session per line:                  *)
(*    { "id": .., "ev": [event, ..] },                                     *)
(*    event = { "op": name, "a": [outcome, ..], "r": outcome }             *)
(* with every argument and result encoded as an "outcome" record:          *)
(*    [k |-> "none"] | [k |-> "exc", v |-> exception name]                 *)
(*    [k |-> "bool", v |-> TRUE] | [k |-> "int", v |-> Z]                  *)
(*    [k |-> "int32", v |-> small TLC integer] | [k |-> "str", v |-> ..]   *)
(*    [k |-> "float", v |-> <<Z, Z>>]   numerator/denominator, exactly     *)
(*    [k |-> "nan"]                                                        *)
(*    [k |-> "arr", sh |-> shape, v |-> nested Zs]      integer array      *)
(*    [k |-> "farr", sh |-> shape, v |-> nested <<Z,Z>>] float array       *)
(*    [k |-> "list", v |-> sequence of outcomes]                           *)
(*    [k |-> "other", v |-> description]                                   *)
(* No operator of a conformance module looks into v before it has checked  *)
(* k and sh, so every recorded behaviour, however wrong, gets a verdict.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json, IOUtils, Perp

Trace == ndJsonDeserialize(IOEnv.TRACE)

IsArr(o, sh) == o.k = "arr" /\ o.sh = sh
\* an array of library numbers with the given leading shape
IsNum(o) == o.k = "arr" /\ o.sh = <<3>>
IsVec(o, n) == o.k = "arr" /\ o.sh = <<n, 3>>
IsVecs(o) == o.k = "arr" /\ Len(o.sh) = 3 /\ o.sh[2] = 6 /\ o.sh[3] = 3
IsObj(o, nv) == o.k = "arr" /\ Len(o.sh) = 4 /\ o.sh[2] = nv /\ o.sh[3] = 6 /\ o.sh[4] = 3
IsDomain(o) == IsObj(o, DIM + 1)

\* denominators all non-zero (a number at all) / all canonical, to depth d of nesting
RECURSIVE AllNum(_, _)
AllNum(v, d) == IF d = 0 THEN v[3] # Z0 ELSE \A i \in 1..Len(v) : AllNum(v[i], d - 1)
RECURSIVE AllCanon(_, _)
AllCanon(v, d) == IF d = 0 THEN IsCanon(v) ELSE \A i \in 1..Len(v) : AllCanon(v[i], d - 1)
OkArr(o) == AllNum(o.v, Len(o.sh) - 1)
OkCanon(o) == AllCanon(o.v, Len(o.sh) - 1)
RECURSIVE DeepCanon(_, _)
DeepCanon(v, d) == IF d = 0 THEN Canon(v) ELSE E([i \in 1..Len(v) |-> DeepCanon(v[i], d - 1)])
\* the value of a numeric array outcome, canonicalised
Val(o) == DeepCanon(o.v, Len(o.sh) - 1)

\* exact value of a recorded float
Fl(q) == Canon(<<q[1], Z0, q[2]>>)
\* |x - e| <= tol * (1 + |e|)
CloseF(x, e, tol) == FLe(FAbs(FSub(x, e)), FMul(tol, FAdd(F1, FAbs(e))))
\* |x - e| <= tol
WithinF(x, e, tol) == FLe(FAbs(FSub(x, e)), tol)
Tol9 == F(1, 0, 1000000000)
Tol6 == F(1, 0, 1000000)
=============================================================================
