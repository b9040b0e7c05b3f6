---- MODULE FitTrace ----
(* Recorded fits: pinned parameters equal the requested values, the others lie in their domain, the reported value is the
   objective at the reported point, the rates without signal are not negative and no other admissible point has a smaller one.  All in micro units. *)
EXTENDS Fix, TLC, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES t, l
Has(e, f) == f \in DOMAIN e
TolPin == 5
TolVal == 300
TolMin == 2000
Clauses(e) ==
  << <<"pinned", \A i \in 1..Len(e.pinned) : Near(e.pinned[i][1], e.pinned[i][2], IF Has(e, "tolpin") THEN e.tolpin ELSE TolPin)>>,
     <<"domain", \A i \in 1..Len(e.inside) : e.inside[i][1] - TolPin <= e.inside[i][2] /\ e.inside[i][2] <= e.inside[i][3] + TolPin>>,
     <<"background", ~Has(e, "rates") \/ \A i \in 1..Len(e.rates) : e.rates[i] >= -TolMin>>,
     <<"value", AbsV(e.value) <= TolVal>>,
     <<"minimum", \A i \in 1..Len(e.others) : e.others[i] >= -TolMin>>,
     <<"close", ~Has(e, "close") \/ \A i \in 1..Len(e.close) : Near(e.close[i][1], e.close[i][2], e.close[i][3])>> >>
Broken(e) == SelectSeq(Clauses(e), LAMBDA x : ~x[2])
Init == t \in 1..Len(Traces) /\ l = 1
Next == /\ l <= Len(Traces[t].ev)
        /\ LET b == Broken(Traces[t].ev[l]) IN
           IF b = <<>> THEN l' = l + 1 /\ (l + 1 > Len(Traces[t].ev) => PrintT(<<"ACCEPT", t>>))
           ELSE PrintT(<<"REJECT", t, l, b[1][1] \o " " \o Traces[t].ev[l].model>>) /\ l' = 1000000
        /\ t' = t
====
