-------------------------------- MODULE Files --------------------------------
(***************************************************************************)
(* Files as a state machine.  A slot is a (directory, basename); the       *)
(* writers put a domain, a set of triangles, edges or vertices into the    *)
(* slot's coordinate file, or write the slot's display or structure-model  *)
(* file, which must leave the coordinate file alone.  The model says what  *)
(* a read returns after any history (ReadBack); the histories it emits are *)
(* replayed into the code.                                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Depth, NSlot, NObj, Emit
VARIABLES fs,      \* slot -> object id stored in its coordinate file, 0 = no file
          hist

Slots == 1..NSlot
Objs == 1..NObj
Init == fs = [s \in Slots |-> 0] /\ hist = <<>>

Do(e) == hist' = Append(hist, e)
Write(s, o) == fs' = [fs EXCEPT ![s] = o] /\ Do(<<"write", s, o>>)
Read(s) == fs[s] # 0 /\ UNCHANGED fs /\ Do(<<"read", s, fs[s]>>)
Display(s, o) == UNCHANGED fs /\ Do(<<"vesta", s, o>>)
Model(s, o) == UNCHANGED fs /\ Do(<<"pod", s, o>>)
\* a file made by hand: no newline at its end
Place(s, o) == fs' = [fs EXCEPT ![s] = o] /\ Do(<<"place", s, o>>)

Next == /\ Len(hist) < Depth
        /\ \E s \in Slots : \/ Read(s)
                            \/ \E o \in Objs : Write(s, o) \/ Display(s, o) \/ Model(s, o) \/ Place(s, o)
Spec == Init /\ [][Next]_<<fs, hist>>

LastWrite(s) ==
    LET w == {i \in 1..Len(hist) : hist[i][1] \in {"write", "place"} /\ hist[i][2] = s}
    IN  IF w = {} THEN 0 ELSE hist[CHOOSE i \in w : \A j \in w : j <= i][3]
\* a slot always holds what was last written to it, and every read returned that
ReadBack == /\ \A s \in Slots : fs[s] = LastWrite(s)
            /\ \A i \in 1..Len(hist) : hist[i][1] = "read" =>
                 \E j \in 1..(i - 1) : /\ hist[j][1] \in {"write", "place"} /\ hist[j][2] = hist[i][2] /\ hist[j][3] = hist[i][3]
                                       /\ \A k \in (j + 1)..(i - 1) : ~(hist[k][1] \in {"write", "place"} /\ hist[k][2] = hist[i][2])
EmitInv == IF Emit /\ Len(hist) = Depth /\ hist[Depth][1] = "read" THEN PrintT("HIST " \o ToJson(hist)) ELSE TRUE
=============================================================================
