------------------------------- MODULE Orbit -------------------------------
(***************************************************************************)
(* Images of vectors, sets of vectors and domains under group operations   *)
(* about a centre, and the orbit of a domain as a bag of simplices.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, Group

Img(m, c, x, d) ==      \* image of a vector (d=1), a set of vectors (2), a domain (3)
    LET f == OverF(m)
        one(v) == VAdd(c, MatVec(f, VSub(v, c)))
    IN  IF d = 1 THEN one(x)
        ELSE IF d = 2 THEN E([i \in 1..Len(x) |-> one(x[i])])
        ELSE E([i \in 1..Len(x) |-> [j \in 1..Len(x[i]) |-> one(x[i][j])]])

\* expansion: bags of simplices (or of sets of vectors), each the set of its vertices
Flat(o) ==          \* recorded array -> sequence of sets of vectors
    IF Len(o.sh) = 4 THEN E([i \in 1..Len(o.v) |-> {o.v[i][j] : j \in 1..Len(o.v[i])}])
    ELSE LET n == o.sh[2]
         IN  E([i \in 1..(o.sh[1] * n) |->
                LET s == o.v[((i - 1) \div n) + 1][((i - 1) % n) + 1] IN {s[j] : j \in 1..Len(s)}])
SameBag(a, b) ==
    /\ Len(a) = Len(b)
    /\ {a[i] : i \in 1..Len(a)} = {b[i] : i \in 1..Len(b)}
    /\ \/ Cardinality({a[i] : i \in 1..Len(a)}) = Len(a)
       \/ \A x \in {a[i] : i \in 1..Len(a)} :
             Cardinality({i \in 1..Len(a) : a[i] = x}) = Cardinality({i \in 1..Len(b) : b[i] = x})

OrbitOf(ms, c, x, d) ==       \* the images under the sequence ms of operations, as a sequence of sets
    LET per == IF d = 2 THEN 1 ELSE Len(x)
        im == E([g \in 1..Len(ms) |-> Img(ms[g], c, x, d)])
    IN  E([i \in 1..(Len(ms) * per) |->
            LET g == ((i - 1) \div per) + 1
                s == IF d = 2 THEN im[g] ELSE im[g][((i - 1) % per) + 1]
            IN  {s[j] : j \in 1..Len(s)}])
=============================================================================
