---- MODULE SampleTrace ----
(* Pseudo-data of the built-in models: recorded facts of many samples against the rates and terms of Builtin.tla.
   Recorded per request: size asked, shape got, and of a large sample the means, variances and correlations of the
   main counts and of the auxiliary part (micro units). *)
EXTENDS Builtin, TLC, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tr, done
PoissonFam(c) == c.fam \notin {"normal", "mvn"}
VarOf(c, p, i) == IF PoissonFam(c) THEN Rate(c, p, i) ELSE c.sg[i] * c.sg[i] * SqM(WidthFactor(c, p))
CorrOf(c, i, j) == IF c.fam = "mvn" THEN c.rho[i][j] * 10000 ELSE 0
AuxCorr(c, i, j) == IF i = j THEN ONE ELSE IF i <= K(c) /\ j <= K(c) /\ c.fam # "uncorr" THEN c.rho[i][j] * 10000 ELSE 0
\* sampling errors of the mean, the variance and the correlation for e.root squared samples, six standard deviations
Six(v, n) == (6 * SqrtM(v)) \div n + 2000
Shapes(e) == \A r \in 1..Len(e.shapes) : e.shapes[r].got = <<e.shapes[r].size, K(e.c) + (IF e.shapes[r].aux THEN NAux(e.c) ELSE 0)>>
Verdict(e) ==
  LET c == e.c p == e.p n == e.root IN
  IF ~Shapes(e) THEN "requested number of samples in the layout of the data"
  ELSE IF \E i \in 1..K(c) : AbsV(e.mean[i] - Rate(c, p, i)) > Six(VarOf(c, p, i), n) THEN "mean of the counts"
  ELSE IF \E i \in 1..K(c) : AbsV(e.var[i] - VarOf(c, p, i)) > MulM(VarOf(c, p, i), 9000000 \div n) + 2000 THEN "variance of the counts"
  ELSE IF \E i, j \in 1..K(c) : i # j /\ AbsV(e.corr[i][j] - CorrOf(c, i, j)) > Six(ONE, n) THEN "correlation of the counts"
  ELSE IF PoissonFam(c) # e.integer THEN "counts are integers exactly for counting models"
  ELSE IF e.aux /\ \E i \in 1..NAux(c) : AbsV(e.amean[i]) > Six(ONE, n) THEN "mean of the auxiliary data"
  ELSE IF e.aux /\ \E i, j \in 1..NAux(c) : AbsV(e.acov[i][j] - AuxCorr(c, i, j)) > 2 * Six(ONE, n) THEN "covariance of the auxiliary data"
  ELSE IF e.aux /\ \E i \in 1..NAux(c), j \in 1..K(c) : AbsV(e.cross[i][j]) > Six(ONE, n) THEN "auxiliary data independent of the counts"
  ELSE IF ~e.repeat THEN "equal generator states give equal samples"
  ELSE IF ~e.fresh THEN "successive samples differ"
  ELSE IF AbsV(e.serial) > Six(ONE, n) THEN "successive samples are independent"
  ELSE IF ~e.untouched THEN "sampling changes nothing in the model"
  ELSE "ok"
Init == tr \in 1..Len(Traces) /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED tr
        /\ LET v == Verdict(Traces[tr]) IN IF v = "ok" THEN PrintT(<<"ACCEPT", tr>>) ELSE PrintT(<<"REJECT", tr, 1, v>>)
====
