---- MODULE Confine ----
(* Options of a query reach every fit behind it: with the nuisance parameter confined to a single value a, every answer is that of
   the model which has no nuisance and data lowered by its effect there. *)
EXTENDS ConfLevel, TLC, Json
CONSTANTS Emit, Ns, Ss, Ts, As
VARIABLES m, a, ex, neg, mu
vars == <<m, a, ex, neg, mu>>
B == 5
Mus == {<<0, 1>>, <<1, 2>>, <<2, 1>>, <<4, 1>>}
mm == [m EXCEPT !.n = (IF ex = "apriori" THEN m.b ELSE m.n) - m.t * a, !.t = 0]
name == IF neg THEN "q" ELSE "qtilde"
q == QOf(mm, mu, neg)
qA == QAOf(mm, mu, neg)
obs == LnCLsObs(name, q, qA)
expd == LnCLsExpected(name, q, qA)
\* discovery
q0 == IF Hat(mm)[1] <= 0 THEN 0 ELSE RMicro(RKap(mm, RMul(Hat(mm), Hat(mm))))
s0 == SqrtM(q0)
s0A == SqrtM(RMicro(Kappa(mm)))
\* chi-squares against the fit, zero signal and a point
Two(x) == RMicro(RMul(<<2, 1>>, x))
best == HatB(mm, neg)
fit == Two(RSub(Nll(mm, mu), Nll(mm, best)))
zero == Two(RSub(Nll(mm, mu), Nll(mm, <<0, 1>>)))
pull == LET v == SqrtM(IF fit < 0 THEN 0 ELSE fit) IN IF RLt(best, mu) THEN -v ELSE v
\* uncertainty through the Asimov data
sigma == SqrtM(RMicro(RDiv(<<1, 1>>, Kappa(mm))))
Init == /\ m \in [n : Ns, b : {B}, s : Ss, t : Ts] /\ a \in As /\ mu \in Mus /\ neg \in BOOLEAN
        /\ ex \in {"observed", "apriori", "aposteriori"}
Next == UNCHANGED vars
\* confining a parameter never makes the signal less certain
Sharper == LET free == Kappa(m) IN free[1] * Kappa(mm)[2] <= Kappa(mm)[1] * free[2]
Signs == (fit >= 0) /\ (mu = best => fit = 0)
Out == Emit => PrintT("@" \o ToJson([m |-> m, a |-> a, ex |-> ex, neg |-> neg, mu |-> mu, obs |-> obs, expd |-> expd, s |-> s0, sA |-> s0A,
          fit |-> fit, zero |-> zero, pull |-> pull, sigma |-> sigma, n |-> mm.n]))
====
