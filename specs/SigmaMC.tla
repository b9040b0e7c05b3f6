---- MODULE SigmaMC ----
(* Uncertainty of the signal strength and pull, for one-bin models with a nuisance. *)
EXTENDS ConfLevel, TLC, Json
CONSTANTS Emit, Ns, Ss, Ts, Mus
VARIABLES m, ex, name, mu
vars == <<m, ex, name, mu>>
B == 5
mm == IF ex = "apriori" THEN AtPrior(m) ELSE m
sigma == SqrtM(RMicro(RDiv(<<1, 1>>, Kappa(mm))))          \* inverse curvature
\* Asimov route: best fit of the Asimov data and the statistic of the tested value
hatA == IF name = "q0" THEN <<1, 1>> ELSE <<0, 1>>
tested == IF name = "q0" THEN <<0, 1>> ELSE mu
qA == LET d == RSub(tested, hatA) IN IF name # "q0" /\ RLt(mu, hatA) THEN 0 ELSE RMicro(RKap(mm, RMul(d, d)))
dist == LET d == RMicro(RSub(tested, hatA)) IN AbsV(d)
sigmaA == IF qA = 0 THEN ONE ELSE DivM(dist, SqrtM(qA))
\* pull of one value
diff == RSub(Hat(mm), mu)
pullAbs == SqrtM(RMicro(RKap(mm, RMul(diff, diff))))
pull == IF diff[1] < 0 THEN -pullAbs ELSE pullAbs
\* only non-negative strengths in the reference fit
HatP == HatB(mm, FALSE)
pullP == LET d == RSub(HatP, mu) v == TwoDiff(mm, mu, HatP) a == IF v[1] <= 0 THEN 0 ELSE SqrtM(RMicro(v)) IN IF d[1] < 0 THEN -a ELSE a
Init == m \in [n : Ns, b : {B}, s : Ss, t : Ts] /\ ex \in {"observed", "apriori", "aposteriori"} /\ name \in {"qtilde", "q", "q0"} /\ mu \in Mus
Next == UNCHANGED vars
\* for a parabola both routes agree wherever the Asimov statistic is not zero
Agree == qA > 0 => Near(sigma, sigmaA, 1 + sigma \div 1000)
AntiSym == diff[1] = 0 => pull = 0
\* a pull of one is one standard deviation
Unit == Near(MulM(pullAbs, sigma), AbsV(RMicro(diff)), 2 + pullAbs \div 10000 + AbsV(RMicro(diff)) \div 1000)
Out == Emit => PrintT("@" \o ToJson([m |-> m, ex |-> ex, name |-> name, mu |-> mu, sigma |-> sigma, sigmaA |-> sigmaA, pull |-> pull, pullP |-> pullP]))
====
