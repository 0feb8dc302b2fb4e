-------------------------------- MODULE Pure --------------------------------
(***************************************************************************)
(* Calls as a state machine.  The caller owns arrays (array a holds the    *)
(* contents a at first) and files; call c reads array c and returns a      *)
(* value, and that is all it does: the store stays as it is, and the value *)
(* is a function of the contents read, not of which array held them, of    *)
(* the history, of the verbosity or of the random generator.  Between      *)
(* calls the caller may do anything else: reseed the generator, ask for    *)
(* more output, overwrite a value it was given, overwrite its own arrays   *)
(* in place.  Deterministic is the property; the histories are replayed.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS NCall, Depth, Emit
VARIABLES store, answers, hist
Calls == 1..NCall
Value(x) == 10 + x           \* some value: all that matters is that it depends on nothing else

Init == store = [c \in Calls |-> c] /\ answers = [x \in Calls |-> {}] /\ hist = <<>>
Do(e) == hist' = Append(hist, e)
Call(c, loud) == /\ answers' = [answers EXCEPT ![store[c]] = @ \cup {Value(store[c])}]
                 /\ UNCHANGED store
                 /\ Do(<<IF loud THEN "loud" ELSE "call", c>>)
Reseed == UNCHANGED <<store, answers>> /\ Do(<<"reseed", 0>>)
Scribble == hist # <<>> /\ hist[Len(hist)][1] \in {"call", "loud"} /\ UNCHANGED <<store, answers>> /\ Do(<<"scribble", 0>>)
Assign(a, b) == /\ a # b /\ store[a] # store[b]
                /\ store' = [store EXCEPT ![a] = store[b]]
                /\ UNCHANGED answers /\ Do(<<"assign", 10 * a + b>>)
Restore(a) == /\ store[a] # a
              /\ store' = [store EXCEPT ![a] = a]
              /\ UNCHANGED answers /\ Do(<<"restore", a>>)
Next == /\ Len(hist) < Depth
        /\ \/ Reseed \/ Scribble
           \/ \E c \in Calls : Restore(c) \/ (\E l \in BOOLEAN : Call(c, l)) \/ \E b \in Calls : Assign(c, b)
Spec == Init /\ [][Next]_<<store, answers, hist>>

\* only the caller's own steps change its arrays
Frame == \A c \in Calls : store[c] # c => \E i \in 1..Len(hist) : hist[i][1] = "assign" /\ hist[i][2] \div 10 = c
Deterministic == \A x \in Calls : \A a, b \in answers[x] : a = b
IsCall(e) == e[1] \in {"call", "loud"}
\* histories worth replaying: call 1 first and last, with something in between
EmitInv == IF Emit /\ Len(hist) = Depth /\ IsCall(hist[1]) /\ hist[1][2] = 1 /\ IsCall(hist[Depth]) /\ hist[Depth][2] = 1
           THEN PrintT("HIST " \o ToJson(hist)) ELSE TRUE
=============================================================================
