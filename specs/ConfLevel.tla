---- MODULE ConfLevel ----
(* Asymptotic confidence levels (micro units, logarithms).  CL = 1 - CLs, so we work with ln CLs. *)
EXTENDS TestStat, NormTab
\* ln CLs for background pull / shift d (positive = more signal-disfavouring)
LnCLs(sqA, d) == LogPhi(-sqA - d) - LogPhi(-d)
Pulls == <<2000000, 1000000, 0, -1000000, -2000000>>
LnCLsExp(sqA) == [i \in 1..5 |-> LnCLs(sqA, Pulls[i])]
LnPExp(sqA) == [i \in 1..5 |-> LogPhi(-sqA - Pulls[i])]
\* observed: the vanishing Asimov statistic means no exclusion (CLs = 1, ln = 0)
LnCLsObs(name, q, qA) == IF Undefined(name, SqrtM(q), SqrtM(qA)) THEN 0 ELSE LnCLs(SqrtM(qA), Delta(name, q, qA))
LnCLsExpected(name, q, qA) == IF Undefined(name, SqrtM(q), SqrtM(qA)) THEN <<0, 0, 0, 0, 0>> ELSE LnCLsExp(SqrtM(qA))

(* One counting region with Gaussian errors: data n, background b, signal s per unit strength, one nuisance
   of size t with unit constraint (t = 0: none), weight 1.  All integers. *)
Kappa(m) == <<m.s * m.s, 1 + m.t * m.t>>       \* curvature of the profile likelihood
Hat(m) == Rat(m.n - m.b, m.s)                  \* unconstrained best fit
RKap(m, x) == RMul(Kappa(m), x)
\* profile nll at mu relative to the global minimum
Nll(m, mu) == LET d == RSub(mu, Hat(m)) IN RMul(<<1, 2>>, RKap(m, RMul(d, d)))
\* exact statistic of the tested (rational) mu
HatB(m, neg) == IF neg \/ ~RLt(Hat(m), <<0, 1>>) THEN Hat(m) ELSE <<0, 1>>
TwoDiff(m, mu, ref) == RMul(<<2, 1>>, RSub(Nll(m, mu), Nll(m, ref)))
QOf(m, mu, neg) ==
  IF RLt(mu, HatB(m, neg)) THEN 0
  ELSE LET v == TwoDiff(m, mu, IF neg \/ ~RLt(Hat(m), <<0, 1>>) THEN Hat(m) ELSE <<0, 1>>)
       IN IF v[1] < 0 THEN 0 ELSE RMicro(v)
\* Asimov data of the background-only hypothesis: minimum at zero signal, same curvature
QAOf(m, mu, neg) == IF RLt(mu, <<0, 1>>) THEN 0 ELSE RMicro(RKap(m, RMul(mu, mu)))
AtPrior(m) == [m EXCEPT !.n = m.b]
====
