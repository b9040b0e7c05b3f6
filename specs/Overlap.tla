---- MODULE Overlap ----
(* Queries of one statistical model that overlap in time.

   A query q of thread t takes Size[t] steps. Its first step works out the rates belonging to its parameters, the
   later ones use them. Where the rates are kept is the design:
     "own"     every evaluation keeps its own,
     "shared"  the model has one place for them (the design of the code before its repair).
   The answer is a number of its own for every query; 0 stands for anything else. *)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS Thread, Size, Design, Preemptions
VARIABLES pc,     \* steps taken by the thread's query
          own,    \* rates kept by the evaluation (the query they belong to)
          cell,   \* rates kept by the model
          used,   \* the rates used so far
          ans,    \* the answer given
          at,     \* who runs
          path    \* the schedule so far: <<thread, steps>>, ...
vars == <<pc, own, cell, used, ans, at, path>>
None == 0
Init == /\ pc = [t \in Thread |-> 0] /\ own = [t \in Thread |-> None] /\ cell = None
        /\ used = [t \in Thread |-> {}] /\ ans = [t \in Thread |-> None]
        /\ at \in Thread /\ path = <<<<at, 0>>>>
Segments == Len(path)
Switches == Segments - 1
Left(t) == Size[t] - pc[t]
\* one step of thread t: the query of thread t is called t, so is its answer
Rates(t) == IF Design = "own" THEN own'[t] ELSE cell'
Step(t) ==
  /\ at = t /\ Left(t) > 0
  /\ pc' = [pc EXCEPT ![t] = @ + 1]
  /\ own' = IF pc[t] = 0 THEN [own EXCEPT ![t] = t] ELSE own
  /\ cell' = IF pc[t] = 0 THEN t ELSE cell
  /\ used' = [used EXCEPT ![t] = @ \cup {Rates(t)}]
  /\ ans' = IF Left(t) = 1 THEN [ans EXCEPT ![t] = IF used'[t] = {t} THEN t ELSE None] ELSE ans
  /\ path' = [path EXCEPT ![Segments][2] = @ + 1]
  /\ at' = at
\* another thread goes on: because this one has ended, or anywhere inside it as long as pre-emptions are left
Switch(t) ==
  /\ at # t /\ Left(t) > 0
  /\ \/ Left(at) = 0
     \/ pc[at] > 0 /\ Switches < Preemptions
  /\ at' = t /\ path' = path \o <<<<t, 0>>>>
  /\ UNCHANGED <<pc, own, cell, used, ans>>
Next == \E t \in Thread : Step(t) \/ Switch(t)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Done == \A t \in Thread : Left(t) = 0
\* whatever the interleaving, a query that has ended answered for itself
OwnAnswer == \A t \in Thread : Left(t) = 0 => ans[t] = t
Ends == <>Done
====
