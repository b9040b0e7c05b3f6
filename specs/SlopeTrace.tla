---- MODULE SlopeTrace ----
(* Recorded gradients and Hessians of the fit objective against its slopes and curvatures (micro units). *)
EXTENDS Fix, TLC, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tr, done
Rel(a, b, t) == IF ~Finite(a) \/ ~Finite(b) THEN FALSE ELSE AbsV(a - b) <= t + AbsV(a) \div 1000
Verdict(e) ==
  IF Len(e.grad) # Len(e.slope) \/ \E i \in 1..Len(e.grad) : ~Rel(e.slope[i], e.grad[i], 2000) THEN "gradient is the slope of the objective"
  ELSE IF Len(e.hess) # Len(e.curv) \/ \E i, j \in 1..Len(e.curv) : ~Rel(e.curv[i][j], e.hess[i][j], 3000) THEN "second derivatives are those of the log-likelihood"
  ELSE IF \E i, j \in 1..Len(e.hess) : ~Rel(e.hess[i][j], e.hess[j][i], 10) THEN "second derivatives are symmetric" ELSE "ok"
Init == tr \in 1..Len(Traces) /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED tr
        /\ LET v == Verdict(Traces[tr]) IN IF v = "ok" THEN PrintT(<<"ACCEPT", tr>>) ELSE PrintT(<<"REJECT", tr, 1, v>>)
====
