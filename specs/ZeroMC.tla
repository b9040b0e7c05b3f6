---- MODULE ZeroMC ----
(* Backends with Asimov likelihoods of their own: the Asimov best fit may lie anywhere, also above the tested value, where the
   Asimov statistic vanishes.  No signal is excluded then, and the expected band still has its five entries.  Halves. *)
EXTENDS ConfLevel, TLC, Json
CONSTANT Emit
VARIABLES hat, ha, mu, name
vars == <<hat, ha, mu, name>>
Init == hat \in -3..4 /\ ha \in {-2, 0, 1, 2, 3, 5} /\ mu \in {0, 1, 2, 4} /\ name \in {"q", "qtilde"}
Next == UNCHANGED vars
Bounded(x) == IF name = "qtilde" /\ x < 0 THEN 0 ELSE x
\* (mu - x)^2 relative to the (bounded) minimum, in micro units
Fall(x) == IF mu < Bounded(x) THEN 0
           ELSE ((mu - x) * (mu - x) - (Bounded(x) - x) * (Bounded(x) - x)) * 250000
q == Fall(hat)
qA == Fall(ha)
obs == LnCLsObs(name, q, qA)
expd == LnCLsExpected(name, q, qA)
NoExclusion == qA = 0 => (obs = 0 /\ \A i \in 1..5 : expd[i] = 0)
Order == \A i \in 1..4 : expd[i] <= expd[i + 1]
Out == Emit => PrintT("@" \o ToJson([hat |-> hat, ha |-> ha, mu |-> mu, name |-> name, obs |-> obs, expd |-> expd, qA |-> qA, q |-> q]))
====
