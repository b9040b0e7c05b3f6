---- MODULE OverlapTrace ----
(* What was recorded of overlapping queries on one model: call(t, q), ret(t, v), and afterwards, from one thread, again(q, v).
   v is the number of the query whose answer (given alone, on a model of its own) was returned; 0: the answer of none. *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tr, l, open
vars == <<tr, l, open>>
T == 1..8
Clause(e) == CASE e.e = "call" -> IF open[e.t] = 0 THEN "" ELSE "a thread waits for two answers"
               [] e.e = "ret" -> IF open[e.t] = 0 THEN "answer without a question"
                                 ELSE IF e.v = open[e.t] THEN ""
                                 ELSE IF e.v = 0 THEN "the answer of an overlapping query differs from the one given alone"
                                 ELSE "the answer belongs to another query"
               [] e.e = "again" -> IF e.v = e.q THEN "" ELSE "the model answers differently afterwards"
               [] OTHER -> "a query never ended"
Init == tr \in 1..Len(Traces) /\ l = 1 /\ open = [t \in T |-> 0]
Next == /\ l > 0 /\ UNCHANGED tr
        /\ IF l > Len(Traces[tr].ev)
             THEN l' = 0 /\ UNCHANGED open /\ PrintT(<<"ACCEPT", tr>>)
             ELSE LET e == Traces[tr].ev[l] c == Clause(e) IN
                  IF c # "" THEN l' = 0 /\ UNCHANGED open /\ PrintT(<<"REJECT", tr, l, c>>)
                  ELSE /\ l' = l + 1
                       /\ open' = IF e.e = "call" THEN [open EXCEPT ![e.t] = e.q] ELSE IF e.e = "ret" THEN [open EXCEPT ![e.t] = 0] ELSE open
====
