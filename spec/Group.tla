------------------------------- MODULE Group -------------------------------
(***************************************************************************)
(* The symmetry groups, as 6x6 integer matrices acting on 6D coordinates,  *)
(* generated from a few operations.  As a state machine: the operation     *)
(* reached so far, composed with one more generator at every step.  TLC    *)
(* explores it completely; GroupInv holds in every state and the number of *)
(* states is the group order.                                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Perp

\* plain integer matrices
IId == [i \in 1..6 |-> [j \in 1..6 |-> IF i = j THEN 1 ELSE 0]]
IMul(A, B) == E([i \in 1..6 |-> [j \in 1..6 |->
                A[i][1]*B[1][j] + A[i][2]*B[2][j] + A[i][3]*B[3][j]
              + A[i][4]*B[4][j] + A[i][5]*B[5][j] + A[i][6]*B[6][j]]])
ISub(A, B) == E([i \in 1..6 |-> [j \in 1..6 |-> A[i][j] - B[i][j]]])

IcoGens == {
  \* five-fold rotation about the first axis
  << <<1,0,0,0,0,0>>, <<0,0,1,0,0,0>>, <<0,0,0,1,0,0>>, <<0,0,0,0,1,0>>, <<0,0,0,0,0,1>>, <<0,1,0,0,0,0>> >>,
  \* three-fold rotation permuting the first three axes
  << <<0,1,0,0,0,0>>, <<0,0,1,0,0,0>>, <<1,0,0,0,0,0>>, <<0,0,0,0,0,1>>, <<0,0,0,-1,0,0>>, <<0,0,0,0,-1,0>> >>,
  \* inversion
  [i \in 1..6 |-> [j \in 1..6 |-> IF i = j THEN -1 ELSE 0]] }
\* twelve-fold rotation of the plane; x -> zeta x in the basis 1, zeta, zeta^2, zeta^3
C12 == << <<0,1,0,0,0,0>>, <<0,0,1,0,0,0>>, <<0,0,0,1,0,0>>, <<-1,0,1,0,0,0>>, <<0,0,0,0,1,0>>, <<0,0,0,0,0,1>> >>
DodeGens == { C12,
  << <<0,0,0,1,0,0>>, <<0,0,1,0,0,0>>, <<0,1,0,0,0,0>>, <<1,0,0,0,0,0>>, <<0,0,0,0,1,0>>, <<0,0,0,0,0,1>> >> }
Gens == IF PKG = "ico" THEN IcoGens ELSE DodeGens
Order == IF PKG = "ico" THEN 120 ELSE 24

RECURSIVE Closure(_, _)
Closure(seen, new) ==
    IF new = {} THEN seen
    ELSE LET nxt == { IMul(g, m) : g \in Gens, m \in new } \ seen
         IN  Closure(seen \cup nxt, nxt)
Ops == Closure({IId}, {IId})

\* an integer matrix over the field
OverF(m) == E([i \in 1..6 |-> [j \in 1..6 |-> FI(m[i][j])]])
\* the image of a 6D vector under m about the centre c
About(m, c, v) == VAdd(c, MatVec(OverF(m), VSub(v, c)))

\* m acts orthogonally on the space seen by P: (P m)^T (P m) = P^T P
Gram(P) == MatMul(Transpose(P), P)
Orthogonal(m, P) == Gram(MatMul(P, OverF(m))) = Gram(P)
\* ... and it does act on it: the kernel of P is mapped to itself, i.e. P m = R P for some 3x3 R;
\* as ParM and PerpM together are invertible this is "P m vanishes where P does"
----------------------------------------------------------------------------
\* the twelve-fold similarity: multiplication by 1 + zeta, and its inverse zeta^2 - zeta^3
SimUp == E([i \in 1..6 |-> [j \in 1..6 |->
            IF i > 4 \/ j > 4 THEN IId[i][j] ELSE IId[i][j] + C12[i][j]]])
SimDn == LET c2 == IMul(C12, C12)
             d == ISub(c2, IMul(c2, C12))
         IN  E([i \in 1..6 |-> [j \in 1..6 |-> IF i > 4 \/ j > 4 THEN IId[i][j] ELSE d[i][j]]])
RECURSIVE FPow(_, _)
FPow(m, n) == IF n = 0 THEN Ident(6) ELSE MatMul(m, FPow(m, n - 1))
Sim(m) == IF m >= 0 THEN FPow(OverF(SimUp), m) ELSE FPow(OverF(SimDn), -m)
\* squares of the scale factors: 2 + 2w in parallel, 2 - 2w in perpendicular space (w = sqrt(3)/2)
Plane(P) == SubSeq(P, 1, 2)
LamPar == F(2, 2, 1)
LamPerp == F(2, -2, 1)
ScalesBy(m, P, lam) == LET g == Gram(Plane(P))
                       IN  Gram(MatMul(Plane(P), OverF(m))) = E([i \in 1..6 |-> VScale(lam, g[i])])
ASSUME PKG = "dode" =>
    /\ IMul(SimUp, SimDn) = IId
    /\ ScalesBy(SimUp, ParM, LamPar) /\ ScalesBy(SimUp, PerpM, LamPerp)
    /\ FMul(LamPar, LamPerp) = F1
    /\ IMul(SimUp, C12) = IMul(C12, SimUp)
=============================================================================
