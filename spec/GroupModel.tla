----------------------------- MODULE GroupModel -----------------------------
EXTENDS Group
VARIABLE m
Init == m = IId
Next == \E g \in Gens : m' = IMul(g, m)
Spec == Init /\ [][Next]_m

\* preserves the lattice, and is an orthogonal map of both spaces
GroupInv == Orthogonal(m, ParM) /\ Orthogonal(m, PerpM)
\* (closed under products: every state is a product of generators and every product is a state)
\* has an inverse in the group
HasInverse == \E n \in Ops : IMul(m, n) = IId
InOps == m \in Ops
ASSUME Cardinality(Ops) = Order
=============================================================================
