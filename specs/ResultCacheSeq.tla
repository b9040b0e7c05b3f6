-------------------------- MODULE ResultCacheSeq --------------------------
(* Sequential meaning of the cache, for one caller and several objects:       *)
(* first-in first-out retention per object, failures leave no trace, a fresh  *)
(* or copied object starts empty.  `hist` records each operation with its     *)
(* predicted outcome; complete histories are printed for replay on the code.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Obj, Key, Spell, Maxes, Depth
VARIABLES store, nx, max, hist, done
vars == <<store, nx, max, hist, done>>

Pos(o, k) == {i \in 1..Len(store[o]) : store[o][i][1] = k}
Init == store = [o \in Obj |-> <<>>] /\ nx = 0 /\ max \in Maxes /\ hist = <<>> /\ done = FALSE

Kept(s) == IF max >= 0 /\ Len(s) > max THEN SubSeq(s, Len(s) - max + 1, Len(s)) ELSE s
Log(r, s) == hist' = Append(hist, r @@ [size |-> [o \in Obj |-> Len(s[o])]])

Call(o, k, sp, fails) ==
  IF Pos(o, k) # {}
  THEN LET i == CHOOSE i \in Pos(o, k) : TRUE IN
       /\ UNCHANGED <<store, nx>>
       /\ Log([op |-> "call", o |-> o, k |-> k, sp |-> sp, fails |-> fails, ran |-> FALSE, x |-> store[o][i][2]], store)
  ELSE /\ nx' = nx + 1
       /\ store' = IF fails THEN store ELSE [store EXCEPT ![o] = Kept(Append(@, <<k, nx + 1>>))]
       /\ Log([op |-> "call", o |-> o, k |-> k, sp |-> sp, fails |-> fails, ran |-> TRUE,
               x |-> IF fails THEN -(nx + 1) ELSE nx + 1], store')
Clear(o) == /\ store' = [store EXCEPT ![o] = <<>>] /\ UNCHANGED nx
            /\ Log([op |-> "clear", o |-> o], store')
Fresh(o, p) == \* slot o is replaced by a new object (p = 0), or a copy of the object in slot p
            /\ store' = [store EXCEPT ![o] = <<>>] /\ UNCHANGED nx
            /\ Log([op |-> "fresh", o |-> o, p |-> p], store')
Mutate == \* the caller changes in place every value it was given and every argument it passed
          /\ UNCHANGED <<store, nx>> /\ Log([op |-> "mutate"], store)
Step == /\ Len(hist) < Depth /\ UNCHANGED <<max, done>>
        /\ \/ \E o \in Obj, k \in Key, sp \in Spell, f \in BOOLEAN : Call(o, k, sp, f)
           \/ \E o \in Obj : Clear(o)
           \/ \E o \in Obj, p \in Obj \cup {0} : Fresh(o, p)
           \/ Mutate
Emit == /\ Len(hist) = Depth /\ ~done /\ done' = TRUE /\ UNCHANGED <<store, nx, max, hist>>
        /\ PrintT("@" \o ToJson([max |-> max, h |-> hist]))
Next == Step \/ Emit
Spec == Init /\ [][Next]_vars
Bounded == max >= 0 => \A o \in Obj : Len(store[o]) <= max
Distinct == \A o \in Obj : \A i, j \in 1..Len(store[o]) : store[o][i][1] = store[o][j][1] => i = j
Isolated == \A o, p \in Obj : \A i \in 1..Len(store[o]), j \in 1..Len(store[p]) :
               store[o][i][2] = store[p][j][2] => o = p
=============================================================================
