---- MODULE CombineTrace ----
(* Combinations of arbitrary models against recorded answers of their members (micro units). *)
EXTENDS Fix, TLC, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tr, done
RECURSIVE SumSeq(_, _)
SumSeq(s, k) == IF k = 0 THEN 0 ELSE s[k] + SumSeq(s, k - 1)
Sum(s) == SumSeq(s, Len(s))
\* e.members: the members' values at the point asked for; e.value: the combination's
Clauses(e) == <<
  <<"combined value is the sum of the members", e.kind = "value" => Near(e.value, Sum(e.members), 10 + Len(e.members))>>,
  <<"best fit is the sum of the members at the reported strength", e.kind = "fit" => Near(e.value, Sum(e.members), e.tol)>>,
  <<"no other strength of the domain does better", e.kind = "fit" => \A i \in 1..Len(e.grid) : e.value <= Sum(e.grid[i]) + e.tol>>,
  <<"best fit inside the domain", e.kind = "fit" => (e.lo - 2 <= e.muhat /\ e.muhat <= e.hi + 2)>>,
  <<"combined pseudo-data are the members' pseudo-data", e.kind = "data" => (Len(e.data) = Len(e.members) /\ \A i \in 1..Len(e.data) : NearSeq(e.data[i], e.members[i], e.tol))>> >>
Failed(e) == LET c == Clauses(e) IN {i \in 1..Len(c) : ~c[i][2]}
Init == tr \in 1..Len(Traces) /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED tr
        /\ LET e == Traces[tr] f == Failed(e) IN
             IF f = {} THEN PrintT(<<"ACCEPT", tr>>) ELSE PrintT(<<"REJECT", tr, 1, Clauses(e)[CHOOSE i \in f : \A j \in f : i <= j][1]>>)
====
