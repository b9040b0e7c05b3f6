---- MODULE ConfLevelMC ----
EXTENDS ConfLevel, TLC, Json
CONSTANTS Emit, Ns, Bs, Ss, Ts, Mus
VARIABLES m, mu, neg, ex
vars == <<m, mu, neg, ex>>
name == IF neg THEN "q" ELSE "qtilde"
mm == IF ex = "apriori" THEN AtPrior(m) ELSE m
q == QOf(mm, mu, neg)
qA == QAOf(mm, mu, neg)
obs == LnCLsObs(name, q, qA)
expd == LnCLsExpected(name, q, qA)
Init == /\ m \in [n : Ns, b : Bs, s : Ss, t : Ts] /\ mu \in Mus /\ neg \in BOOLEAN
        /\ ex \in {"observed", "apriori", "aposteriori", "all"}
Next == UNCHANGED vars
\* the ratio is a probability; expected levels are ordered; more signal is excluded more strongly
Probability == obs <= 60 /\ \A i \in 1..5 : expd[i] <= 60
Ordered == \A i \in 1..4 : expd[i] <= expd[i + 1] + 60
Monotone == \A mu2 \in Mus : (RLt(mu, mu2) /\ ~RLt(mu, <<0, 1>>)) =>
              LnCLsObs(name, QOf(mm, mu2, neg), QAOf(mm, mu2, neg)) <= obs + 60
Out == Emit => PrintT("@" \o ToJson([m |-> m, mu |-> mu, neg |-> neg, ex |-> ex, obs |-> obs, expd |-> expd, q |-> q, qA |-> qA]))
====
