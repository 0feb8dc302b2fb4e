-------------------------------- MODULE Lin --------------------------------
(***************************************************************************)
(* Exact linear algebra over Fld: vectors are sequences of elements,       *)
(* matrices sequences of rows.                                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, Fld, Eager

VZero(n) == [i \in 1..n |-> F0]
VAdd(u, v) == E([i \in 1..Len(u) |-> FAdd(u[i], v[i])])
VSub(u, v) == E([i \in 1..Len(u) |-> FSub(u[i], v[i])])
VScale(c, v) == E([i \in 1..Len(v) |-> FMul(c, v[i])])
VCanon(v) == E([i \in 1..Len(v) |-> Canon(v[i])])
FSum(s) == FoldLeft(FAdd, F0, s)
Dot(u, v) == FSum([i \in 1..Len(u) |-> FMul(u[i], v[i])])
Cross(u, v) == <<FSub(FMul(u[2], v[3]), FMul(u[3], v[2])),
                 FSub(FMul(u[3], v[1]), FMul(u[1], v[3])),
                 FSub(FMul(u[1], v[2]), FMul(u[2], v[1]))>>
MatVec(M, v) == E([i \in 1..Len(M) |-> Dot(M[i], v)])
Col(M, j) == [i \in 1..Len(M) |-> M[i][j]]
MatMul(A, B) == E([i \in 1..Len(A) |-> [j \in 1..Len(B[1]) |-> Dot(A[i], Col(B, j))]])
Transpose(M) == E([j \in 1..Len(M[1]) |-> [i \in 1..Len(M) |-> M[i][j]]])
Det3(m) == Dot(m[1], Cross(m[2], m[3]))
Ident(n) == E([i \in 1..n |-> [j \in 1..n |-> IF i = j THEN F1 ELSE F0]])
VSumAll(n, vs) == FoldLeft(VAdd, VZero(n), vs)
\* barycentre of a non-empty sequence of n-vectors
Mean(n, vs) == VScale(F(1, 0, Len(vs)), VSumAll(n, vs))

VEq(u, v) == Len(u) = Len(v) /\ \A i \in 1..Len(u) : FEq(u[i], v[i])
VIsZero(u) == \A i \in 1..Len(u) : FIsZero(u[i])
\* matrix with TLC-integer entries
IMat(m) == E([i \in 1..Len(m) |-> [j \in 1..Len(m[i]) |-> FI(m[i][j])]])
=============================================================================
