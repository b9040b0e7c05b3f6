---- MODULE MergeTrace ----
EXTENDS MergeBins, IOUtils
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tr, done
Verdict(t) ==
  IF ~Admissible(t.n, t.gs) THEN IF t.raised = 1 THEN "ok" ELSE "an inadmissible grouping is accepted"
  ELSE IF t.raised = 1 THEN "an admissible grouping is refused"
  ELSE LET fg == Full(t.n, t.gs) IN
  IF t.full # fg THEN "order of the merged and kept bins"
  ELSE IF t.b2 # Yields(t.b, fg) THEN "background yields" ELSE IF t.d2 # Yields(t.d, fg) THEN "data"
  ELSE IF t.s2 # (IF t.s = <<>> THEN <<>> ELSE Yields(t.s, fg)) THEN "signal yields"
  ELSE IF t.c2 # Cov(t.c, fg) THEN "covariance" ELSE IF t.same # 1 THEN "inputs are modified" ELSE IF t.exact # 1 THEN "fractions are lost" ELSE "ok"
Init == tr \in 1..Len(Traces) /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED tr
        /\ LET v == Verdict(Traces[tr]) IN IF v = "ok" THEN PrintT(<<"ACCEPT", tr>>) ELSE PrintT(<<"REJECT", tr, 1, v>>)
====
