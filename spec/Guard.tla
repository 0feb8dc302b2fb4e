-------------------------------- MODULE Guard --------------------------------
(***************************************************************************)
(* Which requests the library answers.  Ranks(f) are the numbers of axes   *)
(* the array argument of operation f may have (a number has one axis, a    *)
(* vector two, a simplex or a set of vectors three, a domain four); rank 0 *)
(* stands for no array at all.  Anything else is refused, which means that *)
(* no value comes back and that nothing happens to any file.               *)
(* The state machine is that of one coordinate file asked to hold things   *)
(* of every kind and shape: it holds what the last accepted request wrote. *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS PKG, Depth, Emit
VARIABLES file, hist

AllRanks == 0..5
Ranks(f) ==
    CASE f \in {"add_vectors", "sub_vectors", "mul_vector"} -> {2}
      [] f \in {"mul_vectors", "symmetric", "symmetric_0", "expand", "expand_by"} -> {3, 4}
      [] f = "transform" -> {2, 3, 4}
      [] f \in {"centroid", "simplex_measure"} -> {3}
      [] f \in {"shift", "centroid_obj", "all_edges", "unique_edges",
                "meet_first", "meet_second", "convex_first", "convex_second"} -> {4}
      [] f \in {"volume", "measure"} -> {3, 4, 5}
      [] f \in {"dedup", "dedup_perp"} -> {3, 4}
      [] f = "equivalent" -> {2, 3, 4}
      [] OTHER -> {}
\* how many points a thing of each kind has; a kind the package does not know is never accepted
Kinds == {"tetrahedron", "triangle", "edge", "vertex", "sphere"}
FileRanks(k) == CASE k = "tetrahedron" -> IF PKG = "ico" THEN {4} ELSE {}
                  [] k \in {"triangle", "edge"} -> {4}
                  [] k = "vertex" -> {3}
                  [] OTHER -> {}

GuardInit == file = <<>> /\ hist = <<>>
Store(k, n) == /\ Len(hist) < Depth
               /\ file' = IF n \in FileRanks(k) THEN <<k, n, Len(hist)>> ELSE file
               /\ hist' = Append(hist, <<"store", k, n>>)
GuardNext == \E k \in Kinds : \E n \in AllRanks : Store(k, n)
GuardSpec == GuardInit /\ [][GuardNext]_<<file, hist>>

Accepted == {i \in 1..Len(hist) : hist[i][3] \in FileRanks(hist[i][2])}
LastAccepted == IF Accepted = {} THEN file = <<>>
                ELSE LET i == CHOOSE i \in Accepted : \A j \in Accepted : j <= i
                     IN  file = <<hist[i][2], hist[i][3], i - 1>>
EmitInv == IF Emit /\ Len(hist) = Depth THEN PrintT("HIST " \o ToJson(hist)) ELSE TRUE
=============================================================================
