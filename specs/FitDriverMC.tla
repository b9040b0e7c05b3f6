---- MODULE FitDriverMC ----
(* The retry loop as a state machine over all small requests and failure patterns. *)
EXTENDS FitDriver, TLC, Json
CONSTANTS Layouts, FixSets, Trialss, OptSets, Emit, MaxFail
VARIABLES r, fails, attempt, b, x, done
vars == <<r, fails, attempt, b, x, done>>
Requests == {q \in [cfg : Layouts, fixed : FixSets, ibounds : {TRUE, FALSE}, iinit : {TRUE, FALSE}, ntrials : Trialss, opts : OptSets] :
               /\ \A p \in q.fixed : p[1] <= Len(q.cfg.bounds)}
ExpB(c) == [j \in Par(c) |-> IF j = 1 THEN <<-8, 8>> ELSE IF j = 2 THEN <<None, 6>> ELSE <<-3, None>>]
ExpI(c) == [j \in Par(c) |-> 2]
Concrete(q) == [q EXCEPT !.ibounds = IF q.ibounds THEN ExpB(q.cfg) ELSE <<>>, !.iinit = IF q.iinit THEN ExpI(q.cfg) ELSE <<>>]
Init == /\ \E q \in Requests : r = Concrete(q)
        /\ fails \in 0..MaxFail /\ attempt = 0 /\ b = RefFirst(r) /\ x = Start(r) /\ done = FALSE
Try == /\ ~done /\ attempt < Trials(r)
       /\ attempt' = attempt + 1
       /\ IF attempt + 1 > fails \/ attempt + 1 = Trials(r) THEN done' = TRUE /\ b' = b ELSE done' = FALSE /\ b' = RefWiden(r, b)
       /\ UNCHANGED <<r, fails, x>>
Next == Try
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
\* design properties
FirstOK == attempt = 0 => FirstBoundsClause(r, b) = "ok"
Grow == [][\A j \in 1..Len(b) : AtMost(b'[j][1], b[j][1]) /\ AtMost(b[j][2], b'[j][2]) /\ WidenedPair(r, j, b[j], IF b' = b THEN RefWiden(r, b)[j] ELSE b'[j])]_vars
PoiFloor == [][b'[r.cfg.poi][1] = b[r.cfg.poi][1]]_vars
FixedStay == \A j \in Fixed(r.fixed) : r.ibounds = <<>> => Holds(b[j], ValueOf(r.fixed, j)) \/ j = r.cfg.poi
Bounded == attempt <= Trials(r)
Terminates == <>done
EmitOut == (Emit /\ attempt = 0) => PrintT("@" \o ToJson([r |-> r, fails |-> fails]))
====
