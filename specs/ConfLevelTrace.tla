---- MODULE ConfLevelTrace ----
(* Verdict on recorded exclusion levels / significances of arbitrary models: the likelihood values the model
   itself reports (relative to its best fit, micro units) determine what the reported levels must be.
   Record: k, name, ex, mu, hat, nmu, nhat, n0, hatA, nmuA, nhatA, n0A (micro), obs, expd: ln(1-CL) micro. *)
EXTENDS ConfLevel, TLC, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tr, done
Deep == -20000000
\* logs of tiny ratios are only compared for being tiny
LnNear(got, want, tol) == IF want < Deep THEN got < Deep + 2000000 ELSE Near(got, want, tol)
LnSeqNear(got, want, tol) == Len(got) = Len(want) /\ \A i \in 1..Len(want) : LnNear(got[i], want[i], tol)
\* tolerance: likelihood differences are known to e.eps, which moves sqrt(q) by eps / sqrt(q)
Tol(e, q) == e.tol
CL(e) ==
  LET q == Stat(e.name, e.mu, e.hat, e.nmu, e.nhat, e.n0)
      qA == Stat(e.name, e.mu, e.hatA, e.nmuA, e.nhatA, e.n0A)
      o == LnCLsObs(e.name, q, qA)
      x == LnCLsExpected(e.name, q, qA)
  IN IF e.ex = "observed" THEN IF ~LnSeqNear(e.obs, <<o>>, e.tol) THEN "observed level" ELSE "ok"
     ELSE IF e.ex = "all" THEN IF ~LnSeqNear(e.obs, <<o>>, e.tol) THEN "observed level (all)"
                               ELSE IF ~LnSeqNear(e.expd, x, e.tol) THEN "expected levels (all)" ELSE "ok"
     ELSE IF ~LnSeqNear(e.expd, x, e.tol) THEN "expected levels" ELSE "ok"
\* significance: returned sqrt(q0A), sqrt(q0), ln p, ln expected p
Sig(e) ==
  LET q == Q0(e.hat, e.n0, e.nhat)
      qA == Q0(e.hatA, e.n0A, e.nhatA)
      s == SqrtM(q) sA == SqrtM(qA)
  IN IF ~Near(e.r[1], sA, e.stol) THEN "expected significance"
     ELSE IF ~Near(e.r[2], s, e.stol) THEN "observed significance"
     ELSE IF ~LnSeqNear(e.obs, <<LogPhi(-e.r[2])>>, e.tol) THEN "p-value"
     ELSE IF ~LnSeqNear(e.expd, LnPExp(e.r[1]), e.tol) THEN "expected p-values" ELSE "ok"
\* upper limit: likelihood values at the returned limit must give the requested level
LevelAt(e) ==
  LET q == QTilde(e.mu, e.hat, e.nmu, e.nhat, e.n0)
      qA == QTilde(e.mu, e.hatA, e.nmuA, e.nhatA, e.n0A)
  IN IF e.band = 0 THEN LnCLsObs("qtilde", q, qA) ELSE LnCLsExpected("qtilde", q, qA)[e.band]
\* infinite: the level must not be reached at the end of the searched domain
Infinite(e) == IF LevelAt(e) >= e.lncls - e.tol THEN "ok" ELSE "infinite limit although excluded in the domain"
UL(e) ==
  IF ~Finite(e.ul) \/ e.ul < 0 THEN "not a limit"
  ELSE IF ~Near(LevelAt(e), e.lncls, e.tol) THEN "level at the limit" ELSE "ok"
Verdict(e) == CASE e.k = "cl" -> CL(e) [] e.k = "sig" -> Sig(e) [] e.k = "ul" -> UL(e) [] e.k = "inf" -> Infinite(e)
Init == tr \in 1..Len(Traces) /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED tr
        /\ LET e == Traces[tr] v == Verdict(e) IN IF v = "ok" THEN PrintT(<<"ACCEPT", tr>>) ELSE PrintT(<<"REJECT", tr, 1, v>>)
====
