------------------------------ MODULE Session ------------------------------
(***************************************************************************)
(* A modelling session: a store of domains and of files, and the           *)
(* operations a user applies to them.  Here the regions are sets of cells  *)
(* of a small torus with a four-fold rotation about every centre, which    *)
(* has the properties the real settings have: a symmetry group acting      *)
(* about every site, asymmetric parts whose images do not overlap,         *)
(* translations, a similarity commuting with the group.  The model states  *)
(* what every domain of the store is after any history (Provenance) and    *)
(* how volumes relate (Laws); its histories are replayed into the code,    *)
(* where ConfSess replaces the torus by exact perpendicular space.         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Depth, NSlot, NFile, Emit
VARIABLES dom,     \* slot -> [reg, cen, ex]: region, centre about which it is an asymmetric part (or NoC), how it came about
          file,    \* the same for files
          hist

N == 5
Cells == (0..(N - 1)) \X (0..(N - 1))
Plus(a, b) == <<(a[1] + b[1]) % N, (a[2] + b[2]) % N>>
Minus(a, b) == <<(a[1] - b[1]) % N, (a[2] - b[2]) % N>>
Rot(a) == <<(0 - a[2]) % N, a[1]>>
About(c, a) == Plus(c, Rot(Minus(a, c)))
Im(c, n, R) == IF n = 0 THEN R ELSE IF n = 1 THEN {About(c, a) : a \in R}
               ELSE IF n = 2 THEN {Minus(Plus(c, c), a) : a \in R} ELSE {Minus(Plus(c, c), About(c, a)) : a \in R}
Images(c, R) == UNION {Im(c, n, R) : n \in 0..3}
Fund == {<<1, 0>>, <<2, 0>>, <<1, 1>>, <<2, 2>>, <<1, 2>>, <<2, 1>>}      \* one cell of every orbit about 0
ASSUME /\ Images(<<0, 0>>, Fund) = Cells \ {<<0, 0>>}
       /\ \A n \in 1..3 : Fund \cap Im(<<0, 0>>, n, Fund) = {}
Move(t, R) == {Plus(t, a) : a \in R}
Twice(a) == <<(2 * a[1]) % N, (2 * a[2]) % N>>
Sim(R) == {Twice(a) : a \in R}

NoC == <<9, 9>>
Vectors == <<<<1, 0>>, <<1, 2>>>>
Seeds == << [reg |-> Fund, cen |-> <<0, 0>>],
            [reg |-> Move(<<1, 0>>, Fund \ {<<2, 2>>}), cen |-> <<1, 0>>],
            [reg |-> {<<0, 0>>, <<1, 1>>, <<0, 1>>, <<1, 0>>, <<4, 4>>}, cen |-> NoC] >>

\* the region an expression denotes
RECURSIVE Eval(_)
Eval(x) ==
    CASE x[1] = "seed" -> Seeds[x[2]].reg
      [] x[1] = "expand" -> Images(x[3], Eval(x[2]))
      [] x[1] = "shift" -> Move(Vectors[x[3]], Eval(x[2]))
      [] x[1] = "meet" -> Eval(x[2]) \cap Eval(x[3])
      [] x[1] = "asym" -> Eval(x[2]) \cap Move(x[3], Fund)
      [] x[1] = "simplify" -> Eval(x[2])
      [] x[1] = "sim" -> Sim(Eval(x[2]))

Slots == 1..NSlot
Files == 1..NFile
Nothing == [reg |-> {}, cen |-> NoC, ex |-> <<"none">>]
Has(d) == d.reg # {}
Init == dom = [s \in Slots |-> Nothing] /\ file = [f \in Files |-> Nothing] /\ hist = <<>>

Put(j, d, e) == /\ dom' = [dom EXCEPT ![j] = IF d.reg = {} THEN Nothing ELSE d]
                /\ hist' = Append(hist, e)
                /\ UNCHANGED file
Load(k, j) == Put(j, [reg |-> Seeds[k].reg, cen |-> Seeds[k].cen, ex |-> <<"seed", k>>], <<"seed", k, j, 0>>)
Expand(i, j) == /\ dom[i].cen # NoC
                /\ Put(j, [reg |-> Images(dom[i].cen, dom[i].reg), cen |-> NoC, ex |-> <<"expand", dom[i].ex, dom[i].cen>>],
                       <<"expand", i, j, 0>>)
Shift(i, j, t) == Put(j, [reg |-> Move(Vectors[t], dom[i].reg), cen |-> IF dom[i].cen = NoC THEN NoC ELSE Plus(dom[i].cen, Vectors[t]),
                          ex |-> <<"shift", dom[i].ex, t>>], <<"shift", i, j, t>>)
Meet(i, k, j) == Put(j, [reg |-> dom[i].reg \cap dom[k].reg, cen |-> IF dom[i].cen # NoC THEN dom[i].cen ELSE dom[k].cen,
                         ex |-> <<"meet", dom[i].ex, dom[k].ex>>], <<"meet", i, j, k>>)
Asym(i, j, c) == Put(j, [reg |-> dom[i].reg \cap Move(c, Fund), cen |-> c, ex |-> <<"asym", dom[i].ex, c>>],
                     <<"asym", i, j, IF c = <<0, 0>> THEN 1 ELSE 2>>)
Simplify(i, j) == Put(j, [dom[i] EXCEPT !.ex = <<"simplify", @>>], <<"simplify", i, j, 0>>)
Similar(i, j) == Put(j, [reg |-> Sim(dom[i].reg), cen |-> IF dom[i].cen = NoC THEN NoC ELSE Twice(dom[i].cen),
                         ex |-> <<"sim", dom[i].ex>>], <<"sim", i, j, 0>>)
Write(i, f) == /\ file' = [file EXCEPT ![f] = dom[i]]
               /\ hist' = Append(hist, <<"write", i, f, 0>>)
               /\ UNCHANGED dom
Read(f, j) == Has(file[f]) /\ Put(j, file[f], <<"read", f, j, 0>>)
Measure(i) == UNCHANGED <<dom, file>> /\ hist' = Append(hist, <<"volume", i, 0, 0>>)

Next ==
    /\ Len(hist) < Depth
    /\ \/ \E k \in 1..3, j \in Slots : Load(k, j)
       \/ \E i \in Slots : Has(dom[i]) /\
            \/ Measure(i)
            \/ \E f \in Files : Write(i, f)
            \/ \E j \in Slots : Expand(i, j) \/ Simplify(i, j) \/ Similar(i, j)
            \/ \E j \in Slots, t \in 1..2 : Shift(i, j, t)
            \/ \E j \in Slots, c \in {<<0, 0>>, <<1, 0>>} : Asym(i, j, c)
            \/ \E j \in Slots, k \in Slots : k # i /\ Has(dom[k]) /\ Meet(i, k, j)
       \/ \E f \in Files, j \in Slots : Read(f, j)
Spec == Init /\ [][Next]_<<dom, file, hist>>

All == {dom[s] : s \in {s \in Slots : Has(dom[s])}} \cup {file[f] : f \in {f \in Files : Has(file[f])}}
\* every domain, in the store or in a file, is what the operations that produced it say
Provenance == \A d \in All : d.reg = Eval(d.ex)
\* asymmetric parts stay asymmetric parts
AsymOK == \A d \in All : d.cen # NoC => \A n \in 1..3 : d.reg \cap Im(d.cen, n, d.reg) = {}
\* volumes: conserved, multiplied by the group order, bounded
Card(x) == Cardinality(Eval(x))
Laws == \A d \in All :
    LET x == d.ex  v == Cardinality(d.reg)
    IN  CASE x[1] \in {"shift", "simplify", "sim"} -> v = Card(x[2])
          [] x[1] = "expand" -> v = 4 * Card(x[2])
          [] x[1] = "meet" -> v <= Card(x[2]) /\ v <= Card(x[3]) /\ v >= Card(x[2]) + Card(x[3]) - N * N
          [] x[1] = "asym" -> LET R == Eval(x[2])
                              IN  /\ v <= Cardinality(R)
                                  /\ Im(x[3], 1, R) = R => Images(x[3], d.reg) = R \ {x[3]}
          [] OTHER -> TRUE
\* the order of things that commute does not matter
Commute == \A d \in All : \A t \in 1..2 :
    /\ d.cen # NoC => Move(Vectors[t], Images(d.cen, d.reg)) = Images(Plus(d.cen, Vectors[t]), Move(Vectors[t], d.reg))
    /\ d.cen # NoC => Sim(Images(d.cen, d.reg)) = Images(Twice(d.cen), Sim(d.reg))
    /\ \A b \in All : Move(Vectors[t], d.reg \cap b.reg) = Move(Vectors[t], d.reg) \cap Move(Vectors[t], b.reg)

Did(op) == \E a \in 1..Len(hist) : hist[a][1] = op
\* histories worth replaying: some common part is taken, and the end is looked at
EmitInv == IF Emit /\ Len(hist) = Depth /\ hist[Depth][1] = "volume" /\ (Did("meet") \/ (Did("asym") /\ Did("expand")))
           THEN PrintT("HIST " \o ToJson(hist)) ELSE TRUE
=============================================================================
