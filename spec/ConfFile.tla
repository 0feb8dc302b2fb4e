------------------------------ MODULE ConfFile ------------------------------
(***************************************************************************)
(* Conformance of files: coordinate files (F01), display files (F02) and   *)
(* structure-model files (F03).  The recorder parses a written file into   *)
(* its fields; this module says what they have to be.  The state is the    *)
(* content of the coordinate file of every slot, as in Files.              *)
(***************************************************************************)
EXTENDS TraceRun

NoFile == <<>>
TheInit == [fs |-> [s \in 1..4 |-> NoFile]]

----------------------------------------------------------------------------
\* common

\* the 6D vectors of a recorded object, in order, as recorded
Rows(o) == IF Len(o.sh) = 3 THEN o.v ELSE FlattenSeq(o.v)
PerItem(sel) == CASE sel = "tetrahedron" -> 4 [] sel = "triangle" -> 3 [] sel = "edge" -> 2 [] OTHER -> 1
\* the decimal x stands for e (dec: half a unit of its last digit and the rounding of the computation, from the event)
Reads(x, e, dec) == WithinF(Fl(x), e, Fl(dec))
ReadsV(xs, es, dec) == Len(xs) = Len(es) /\ \A i \in 1..Len(xs) : Reads(xs[i], es[i], dec)
Ranges(s) == {s[i] : i \in 1..Len(s)}
VCan(v) == E([i \in 1..Len(v) |-> Canon(v[i])])

----------------------------------------------------------------------------
\* F01

Shape(n, sel) == IF sel = "vertex" THEN <<n, 6, 3>> ELSE <<n \div PerItem(sel), PerItem(sel), 6, 3>>

Labels(f, sel) == \A i \in 1..Len(f.rows) :
    f.rows[i].lab = IF sel = "vertex" THEN <<i - 1>> ELSE <<(i - 1) \div PerItem(sel), (i - 1) % PerItem(sel)>>

VolLine(l, w, dec) == l.k = "vol" /\ l.v[3] # Z0 /\ Canon(l.v) = w /\ WithinF(Fl(l.f), w, FAdd(Fl(dec), FMul(Tol9, FAbs(w))))

XyzVerdict(f, o, sel, dec) ==
    LET rows == Rows(o) n == Len(rows)
    IN  IF ~f.ok THEN "the file cannot be parsed: " \o f.why
        ELSE IF f.n # n \/ Len(f.rows) # n THEN "the declared count or the number of lines is wrong"
        ELSE IF \E i \in 1..n : f.rows[i].c # rows[i] THEN "a line carries other integers than its vertex"
        ELSE IF \E i \in 1..n : ~ReadsV(f.rows[i].xyz, Perp(VCan(rows[i])), dec) THEN "a line carries other Cartesian coordinates than its vertex"
        ELSE IF ~Labels(f, sel) THEN "a line is numbered wrongly"
        ELSE IF sel = "tetrahedron" THEN
             LET Ts == ObjPts(Val(o))
             IN  IF ~VolLine(f.vol, VolAll(Ts), dec) THEN "the recorded volume is not that of the domain"
                 ELSE IF Len(f.per) # Len(Ts) THEN "not one volume per tetrahedron"
                 ELSE IF \E i \in 1..Len(Ts) : ~(f.per[i].i = i - 1 /\ VolLine(f.per[i].v, Vol(Ts[i]), dec)) THEN "a recorded volume is not that of its tetrahedron"
                 ELSE "ok"
        ELSE "ok"

ReadVerdict(s0, e) ==
    LET rows == s0.fs[e.a[1].v] sel == e.a[2].v
    IN  IF e.r.k # "arr" THEN "nothing is read"
        ELSE IF e.r.sh # Shape(Len(rows), sel) THEN "the shape read is not the one written"
        ELSE IF Rows(e.r) # rows THEN "the coordinates read are not the ones written" ELSE "ok"

\* the list of distinct vertices offered for merging by hand
HandVerdict(e) ==
    LET o == e.a[1] r == e.r
        P == {Perp(VCan(v)) : v \in Ranges(Rows(o))}
    IN  IF ~(r.k = "arr" /\ Len(r.sh) = 3) THEN "no list of vertices"
        ELSE LET Q == [i \in 1..Len(r.v) |-> Perp(VCan(r.v[i]))]
             IN  IF Ranges(Q) # P \/ Len(Q) # Cardinality(P) THEN "not the distinct vertices of the domain"
                 ELSE IF \E i \in 1..Len(Q) : r.v[i] \notin Ranges(Rows(o)) THEN "a vertex that is not one of the domain"
                 ELSE XyzVerdict(e.file, r, "vertex", e.dec)

----------------------------------------------------------------------------
\* F02

Colour(c) == CASE c \in {"r", "red"} -> <<255, 0, 0>>
               [] c \in {"b", "blue"} -> <<0, 0, 255>>
               [] c \in {"k", "black"} -> <<127, 127, 127>>
               [] c \in {"p", "pink"} -> <<255, 0, 255>>
               [] c \in {"l", "lime"} -> <<0, 255, 0>>
               [] c \in {"y", "yellow"} -> <<255, 255, 0>>
               [] c \in {"c", "cyan"} -> <<0, 255, 255>>
               [] c \in {"s", "silver"} -> <<192, 192, 192>>
               [] OTHER -> <<127, 127, 127>>
WantedColour(c) == IF c.k = "list" THEN E([i \in 1..3 |-> c.v[i].v]) ELSE Colour(c.v)

\* the distinct edges of a set of simplices (or of edges), as sets of two points
EdgesOf(obj) == UNION {{ {obj[i][j], obj[i][k]} : j, k \in 1..Len(obj[i]) } : i \in 1..Len(obj)}
RealEdges(S) == {x \in S : Cardinality(x) = 2}

\* the length of pq lies in the middle of the window of bond b
Window(b, p, q) ==
    LET d == VSub(p, q) len2 == Dot(d, d)
        lo == Fl(b.lo) hi == Fl(b.hi)
        mid == FMul(F(1, 0, 2), FAdd(lo, hi))
        m1 == FSub(mid, F(1, 0, 1000)) m2 == FAdd(mid, F(1, 0, 1000))
    IN  /\ FLt(lo, hi) /\ FLe(FSub(hi, lo), F(1, 0, 20))
        /\ FLe(len2, FMul(m2, m2))
        /\ (FSgn(m1) <= 0 \/ FLe(FMul(m1, m1), len2))

NumberedBy(s) == \A i \in 1..Len(s) : s[i].i = i

\* obj: sequence of sequences of points; edges: which bonds are wanted, multi: how many
OneMolecule(e, obj, edges, nb) ==
    LET m == e.file.mols[1]
        P == Ranges(FlattenSeq(obj))
        at == m.atoms
        M == E([i \in 1..Len(at) |-> LET c == {p \in P : ReadsV(at[i].xyz, p, e.dec)}
                                     IN  IF c = {} THEN <<>> ELSE CHOOSE p \in c : TRUE])
        lab == [i \in 1..Len(at) |-> at[i].lab]
        AtomOf(l) == CHOOSE i \in 1..Len(at) : lab[i] = l
        bs == m.bonds
        Ends(k) == {M[AtomOf(bs[k].a)], M[AtomOf(bs[k].b)]}
    IN  IF Len(e.file.mols) # 1 THEN "not one molecule"
        ELSE IF \E i \in 1..Len(at) : M[i] = <<>> THEN "an atom is not at a vertex of the domain"
        ELSE IF Ranges(M) # P \/ Len(at) # Cardinality(P) THEN "not every distinct vertex is listed once"
        ELSE IF ~NumberedBy(at) \/ Cardinality(Ranges(lab)) # Len(at) THEN "atoms are not numbered and labelled distinctly"
        ELSE IF m.theri # lab \/ m.sitet # lab THEN "the atom tables disagree"
        ELSE IF \E k \in 1..Len(bs) : bs[k].a \notin Ranges(lab) \/ bs[k].b \notin Ranges(lab) THEN "a bond names no atom"
        ELSE IF {Ends(k) : k \in 1..Len(bs)} # edges THEN "the bonds are not the edges of the domain"
        ELSE IF Len(bs) # nb THEN "an edge is listed more or less often than it should be"
        ELSE IF ~NumberedBy(bs) THEN "bonds are not numbered"
        ELSE IF \E k \in 1..Len(bs) : ~Window(bs[k], M[AtomOf(bs[k].a)], M[AtomOf(bs[k].b)]) THEN "a bond window is not around the length of its edge"
        ELSE IF \E k \in 1..Len(bs) : bs[k].rgb # WantedColour(e.a[3]) THEN "a bond has not the requested colour"
        ELSE "ok"

Ten == FI(10)
OneSimplex(e, m, T) ==
    LET at == m.atoms bs == m.bonds
    IN  IF Len(at) # Len(T) THEN "a molecule has not the vertices of its simplex"
        ELSE IF \E i \in 1..Len(T) : ~ReadsV(at[i].xyz, T[i], e.dec) THEN "an atom is not at the vertex of its simplex"
        ELSE IF ~NumberedBy(at) \/ Cardinality({at[i].lab : i \in 1..Len(at)}) # Len(at) THEN "atoms are not numbered and labelled distinctly"
        ELSE IF m.theri # [i \in 1..Len(at) |-> at[i].lab] \/ m.sitet # m.theri THEN "the atom tables disagree"
        ELSE IF Len(bs) # 1 THEN "not one bond rule per simplex"
        ELSE IF \E i \in 1..Len(at) : at[i].sym # bs[1].a \/ at[i].sym # bs[1].b THEN "the bond rule names another species"
        ELSE IF FSgn(Fl(bs[1].lo)) > 0 \/ FLt(Fl(bs[1].hi), Ten) THEN "the bond rule leaves edges out"
        ELSE IF bs[1].rgb # WantedColour(e.a[3]) THEN "a bond has not the requested colour"
        ELSE "ok"

VestaVerdict(e) ==
    LET mode == e.a[2].v
        obj == E([i \in 1..Len(e.a[1].v) |-> [j \in 1..Len(e.a[1].v[i]) |-> Perp(VCan(e.a[1].v[i][j]))]])
        f == e.file
    IN  IF ~f.ok THEN "the file cannot be parsed: " \o f.why
        ELSE IF mode = "normal" THEN
             IF Len(f.mols) # Len(obj) THEN "not one molecule per simplex"
             ELSE LET vs == {OneSimplex(e, f.mols[i], obj[i]) : i \in 1..Len(obj)} \ {"ok"}
                  IN  IF vs = {} THEN "ok" ELSE CHOOSE x \in vs : TRUE
        ELSE LET v == IF mode \in {"egdes", "edges"} THEN OneMolecule(e, obj, EdgesOf(obj) \cap RealEdges(EdgesOf(obj)), Len(obj))
                      ELSE OneMolecule(e, obj, RealEdges(EdgesOf(obj)), Cardinality(RealEdges(EdgesOf(obj))))
             IN  IF v # "ok" \/ mode # "podatm" THEN v
                 ELSE \* the list returned is the one in the file
                      IF ~(e.r.k = "arr" /\ Len(e.r.sh) = 3) THEN "no list of vertices returned"
                      ELSE IF Len(e.r.v) # Len(f.mols[1].atoms) THEN "the list returned is not the one in the file"
                      ELSE IF \E i \in 1..Len(e.r.v) : ~ReadsV(f.mols[1].atoms[i].xyz, Perp(VCan(e.r.v[i])), e.dec) THEN "the list returned is not the one in the file"
                      ELSE IF \E i \in 1..Len(e.r.v) : e.r.v[i] \notin Ranges(Rows(e.a[1])) THEN "a vertex that is not one of the domain"
                      ELSE "ok"

----------------------------------------------------------------------------
\* F03

PodVerdict(e) ==
    LET obj == E([i \in 1..Len(e.a[1].v) |-> [j \in 1..(DIM + 1) |-> VCan(e.a[1].v[i][j])]])
        pts == E([i \in 1..Len(obj) |-> [j \in 1..(DIM + 1) |-> Perp(obj[i][j])]])
        V6 == Ranges(FlattenSeq(obj))
        P == Ranges(FlattenSeq(pts))
        Common == {p \in P : \A i \in 1..Len(pts) : p \in Ranges(pts[i])}
        f == e.file
    IN  IF Common = {} THEN (IF f.exists # <<FALSE, FALSE>> THEN "files for a domain without a common vertex"
                             ELSE IF e.r.k # "int" \/ e.r.v = Z0 THEN "the missing common vertex is not reported" ELSE "ok")
        ELSE IF e.r.k = "exc" THEN "fails on a domain with a common vertex"
        ELSE IF f.exists # <<TRUE, TRUE>> THEN "no files for a domain with a common vertex"
        ELSE IF ~f.ok THEN "the files cannot be parsed: " \o f.why
        ELSE LET X == {v \in V6 : ReadsV(f.x, v, e.dec3)}
                 O == {Perp(v) : v \in X} \cap Common
                 ej == E([k \in 1..Len(f.ej) |-> LET c == {v \in V6 : ReadsV(f.ej[k], v, e.dec)}
                                                  IN  IF c = {} THEN <<>> ELSE Perp(CHOOSE v \in c : TRUE)])
             IN  IF O = {} THEN "the position is not a common vertex"
                 ELSE LET origin == CHOOSE p \in O : TRUE
                      IN  IF f.serial # <<e.a[2].v, e.a[2].v, e.a[2].v>> THEN "wrong serial number"
                          ELSE IF \E k \in 1..Len(ej) : ej[k] = <<>> THEN "a listed vector is not a vertex"
                          ELSE IF Ranges(ej) # P \ {origin} \/ Len(ej) # Cardinality(P) - 1 THEN "not every other distinct vertex is listed once"
                          ELSE IF f.nej # Len(ej) THEN "wrong number of vectors"
                          ELSE IF f.nth # Len(obj) THEN "wrong number of simplices"
                          ELSE IF Len(f.idx) # DIM * Len(obj) THEN "the index list has the wrong length"
                          ELSE IF \E k \in 1..Len(f.idx) : f.idx[k] \notin 1..Len(ej) THEN "an index names no vector"
                          ELSE IF \E i \in 1..Len(obj) :
                                    {ej[f.idx[DIM * (i - 1) + k]] : k \in 1..DIM} # Ranges(pts[i]) \ {origin} THEN "the index list does not reproduce a simplex"
                          ELSE "ok"

\* the variant with hand-made lists of vertices (a[1]: vertices, a[2]: position, a[3]: lists, a[4]: shift)
HandPodVerdict(e) ==
    LET v == E([i \in 1..Len(e.a[1].v) |-> VCan(e.a[1].v[i])])
        vl == e.a[3].v
        f == e.file
        Lst(i) == vl[i].v                                   \* outcomes of kind int32
    IN  IF e.r.k = "exc" THEN "raises"
        ELSE IF ~f.ok THEN "the files cannot be parsed: " \o f.why
        ELSE IF Len(f.atm) # Len(vl) \/ Len(f.pod) # Len(vl) \/ f.io # Len(vl) THEN "not one entry per list"
        ELSE IF \E i \in 1..Len(vl) :
             LET o == v[Lst(i)[1].v]
             IN  ~( /\ f.atm[i].serial = i /\ ReadsV(f.atm[i].x, Val(e.a[2]), e.dec3)
                    /\ ReadsV(f.atm[i].xi, VAdd(o, E([k \in 1..6 |-> Fl(e.a[4].v[k])])), e.dec) )
             THEN "the position or the origin of an entry is wrong"
        ELSE IF \E i \in 1..Len(vl) :
             LET o == v[Lst(i)[1].v]
                 n == Len(Lst(i)) - 1
                 g == f.pod[i]
                 dist == {Lst(i)[k].v : k \in 2..(n + 1)}
             IN  ~( /\ g.serial = i /\ g.nej = Len(g.ej) /\ Len(g.ej) = Cardinality(dist)
                    /\ g.nth = n \div 3 /\ Len(g.idx) = n
                    /\ \A k \in 1..n : /\ g.idx[k] \in 1..Len(g.ej)
                                       /\ ReadsV(g.ej[g.idx[k]], VSub(v[Lst(i)[k + 1].v], o), e.dec)
                    /\ \A k, m \in 1..n : (g.idx[k] = g.idx[m]) <=> (Lst(i)[k + 1].v = Lst(i)[m + 1].v) )
             THEN "the vectors and indices of an entry are wrong"
        ELSE "ok"

----------------------------------------------------------------------------
Fine(r) == r.k = "int" /\ r.v = Z0

TheStep(s0, e) ==
    LET v == CASE e.op = "crash" -> "the process died"
               [] e.op = "place" -> "ok"
               [] e.op = "write" -> IF ~Fine(e.r) THEN "writing does not succeed" ELSE XyzVerdict(e.file, e.a[1], e.a[3].v, e.dec)
               [] e.op = "read" -> ReadVerdict(s0, e)
               [] e.op = "hand" -> HandVerdict(e)
               [] e.op = "vesta" -> IF e.a[2].v # "podatm" /\ ~Fine(e.r) THEN "writing does not succeed" ELSE VestaVerdict(e)
               [] e.op = "pod" -> PodVerdict(e)
               [] e.op = "handpod" -> HandPodVerdict(e)
    IN  [v |-> v,
         st |-> IF v = "ok" /\ e.op \in {"write", "place"} THEN [s0 EXCEPT !.fs[e.a[2].v] = Rows(e.a[1])] ELSE s0]
=============================================================================
