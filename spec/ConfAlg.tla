------------------------------ MODULE ConfAlg ------------------------------
(***************************************************************************)
(* Conformance of vector, matrix and centroid algebra (A03): every result  *)
(* equals the exact one, componentwise, in lowest terms.                   *)
(***************************************************************************)
EXTENDS TraceRun

TheInit == 0

\* an integer matrix argument as a matrix of field elements
IntMat(o) == E([i \in 1..Len(o.v) |-> [j \in 1..Len(o.v[i]) |-> <<o.v[i][j], Z0, Z1>>]])
RECURSIVE MPow(_, _)
MPow(m, n) == IF n = 0 THEN Ident(Len(m)) ELSE MatMul(m, MPow(m, n - 1))

Nothing == [k |-> "nothing"]
Some(sh, v) == [k |-> "val", sh |-> sh, v |-> E(v)]

Expected(e) ==
    LET a == e.a
        x == Val(a[1])
        sh1 == a[1].sh
        y == Val(a[2])
        sh2 == a[2].sh
    IN CASE e.op = "add_vectors" -> Some(sh1, VAdd(x, y))
         [] e.op = "sub_vectors" -> Some(sh1, VSub(x, y))
         [] e.op = "mul_vector" -> Some(sh1, VScale(y, x))
         [] e.op = "mul_vectors" ->
              Some(sh1, IF Len(sh1) = 3 THEN [i \in 1..Len(x) |-> VScale(y, x[i])]
                        ELSE [i \in 1..Len(x) |-> [j \in 1..Len(x[i]) |-> VScale(y, x[i][j])]])
         [] e.op = "outer_product" -> Some(<<3, 3>>, Cross(x, y))
         [] e.op = "inner_product" -> IF sh1[1] # sh2[1] THEN Nothing ELSE Some(<<3>>, Dot(x, y))
         [] e.op = "dot_product" /\ Len(sh1) = 2 ->
              IF sh1[1] # sh2[1] THEN Nothing ELSE Some(<<3>>, Dot(x, y))
         [] e.op = "dot_product" /\ Len(sh1) = 3 /\ Len(sh2) = 2 ->
              IF sh1[2] # sh2[1] THEN Nothing ELSE Some(<<sh1[1], 3>>, MatVec(x, y))
         [] e.op = "dot_product" /\ Len(sh1) = 3 /\ Len(sh2) = 3 ->
              IF sh1[2] # sh2[1] THEN Nothing ELSE Some(<<sh1[1], sh2[2], 3>>, MatMul(x, y))
         [] e.op = "dot_product_1" /\ Len(sh2) = 2 ->
              IF sh1[2] # sh2[1] THEN Nothing ELSE Some(<<sh1[1], 3>>, MatVec(IntMat(a[1]), y))
         [] e.op = "dot_product_1" /\ Len(sh2) = 3 ->
              IF sh1[2] # sh2[1] THEN Nothing ELSE Some(<<sh1[1], sh2[2], 3>>, MatMul(IntMat(a[1]), y))
         [] e.op = "det_matrix" -> Some(<<3>>, Det3(x))
         [] e.op = "centroid" -> Some(<<6, 3>>, Mean(6, x))
         [] e.op = "centroid_obj" -> Some(<<6, 3>>, Mean(6, E([i \in 1..Len(x) |-> Mean(6, x[i])])))
         [] e.op = "middle_position" -> Some(<<6, 3>>, Mean(6, <<x, y>>))
         [] e.op = "mtrixcal" ->
              Some(<<3>>, Dot(E([i \in 1..6 |-> Val(a[i])]), Val(a[7])))

PowVerdict(e) ==
    LET m == IntMat(e.a[1])
        n == e.a[2].v
        sh == e.a[1].sh
    IN  IF e.r.k \notin {"arr", "farr"} \/ e.r.sh # sh THEN "no matrix of the right shape returned"
        ELSE LET r == IF e.r.k = "arr" THEN IntMat(e.r)
                      ELSE E([i \in 1..sh[1] |-> [j \in 1..sh[2] |-> Fl(e.r.v[i][j])]])
             IN  IF n >= 0 THEN (IF r = MPow(m, n) THEN "ok" ELSE "wrong matrix power")
                 ELSE LET q == MatMul(MPow(m, -n), r)
                      IN  IF \A i, j \in 1..sh[1] : WithinF(q[i][j], IF i = j THEN F1 ELSE F0, Tol9)
                          THEN "ok" ELSE "wrong inverse matrix power"

Verdict(e) ==
    IF e.op = "crash" THEN "the process died"
    ELSE IF e.op = "matrixpow" THEN PowVerdict(e)
    ELSE LET x == Expected(e)
         IN  IF x.k = "nothing"
             THEN (IF e.r.k \in {"none", "exc"} THEN "ok" ELSE "mismatching operands yield a result")
             ELSE IF ~(e.r.k = "arr" /\ e.r.sh = x.sh) THEN "no result of the right shape"
             ELSE IF ~OkArr(e.r) THEN "zero denominator"
             ELSE IF Val(e.r) # x.v THEN "wrong value"
             ELSE IF e.r.v # x.v THEN "not in lowest terms"
             ELSE "ok"

TheStep(s0, e) == [v |-> Verdict(e), st |-> s0]
=============================================================================
