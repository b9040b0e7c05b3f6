---- MODULE StatHist ----
(* Histories of queries to one statistical model.  The caller owns a data container (slot) that it may refill in place between
   queries and every answer it was given, which it may scribble over; neither is part of the model.  The model's own state
   `held` is changed by nothing here, and the answer required of an event is a function of the query and of the contents of
   the caller's container at that moment only.  K queries; the ones in UsesSlot read the container. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS K, UsesSlot, D, Emit
VARIABLES slot, log, answers, held
vars == <<slot, log, answers, held>>
Required(q, s) == IF q \in UsesSlot THEN <<q, s>> ELSE <<q, 0>>
Init == slot = 1 /\ log = <<>> /\ answers = <<>> /\ held = "recorded"
Ask(q) == /\ log' = Append(log, [op |-> "ask", q |-> q, a |-> Required(q, slot)])
          /\ answers' = Append(answers, [a |-> Required(q, slot), own |-> TRUE])
          /\ UNCHANGED <<slot, held>>
Refill == /\ log # <<>> /\ log[Len(log)].op = "ask"
          /\ slot' = 3 - slot /\ log' = Append(log, [op |-> "refill", q |-> 0, a |-> <<0, 3 - slot>>]) /\ UNCHANGED <<answers, held>>
Scribble == /\ log # <<>> /\ log[Len(log)].op = "ask"
            /\ log' = Append(log, [op |-> "scribble", q |-> 0, a |-> <<0, Len(answers)>>])
            /\ answers' = [answers EXCEPT ![Len(answers)].own = FALSE]
            /\ UNCHANGED <<slot, held>>
Next == Len(log) < D /\ (Refill \/ Scribble \/ \E q \in 1..K : Ask(q))
Spec == Init /\ [][Next]_vars
(* histories in which the caller does something of its own between any two questions *)
NextAlt == Len(log) < D /\ (Refill \/ Scribble \/ \E q \in 1..K : (IF log = <<>> THEN TRUE ELSE log[Len(log)].op # "ask") /\ Ask(q))
SpecAlt == Init /\ [][NextAlt]_vars
\* two askings of the same question with the same contents never require different answers; the model never changes
Pure == \A i, j \in 1..Len(answers) : answers[i].a[1] = answers[j].a[1] /\ answers[i].a[2] = answers[j].a[2] => answers[i].a = answers[j].a
Held == held = "recorded"
OnlySlot == \A i \in 1..Len(log) : log[i].op = "ask" /\ log[i].a[2] # 0 => log[i].q \in UsesSlot
Last == Len(log) = D /\ log[D].op = "ask"
EmitOut == Emit /\ Last => PrintT("@" \o ToJson([i \in 1..D |-> <<log[i].op, log[i].q>>]))
====
