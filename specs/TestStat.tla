---- MODULE TestStat ----
(* Test statistics of the hypothesis tests, in micro units.  n* are negative log-likelihoods:
   nmu at the tested value, nhat at the best fit muhat, n0 at zero signal. *)
EXTENDS Fix
Clip0(x) == IF x < 0 THEN 0 ELSE x
QTilde(mu, muhat, nmu, nhat, n0) ==
  IF muhat > mu THEN 0 ELSE Clip0(2 * (nmu - (IF muhat >= 0 THEN nhat ELSE n0)))
QMu(mu, muhat, nmu, nhat) == IF muhat > mu THEN 0 ELSE Clip0(2 * (nmu - nhat))
QMuLeft(mu, muhat, nmu, nhat) == IF muhat < mu THEN 0 ELSE Clip0(2 * (nmu - nhat))
Q0(muhat, n0, nhat) == IF muhat < 0 THEN 0 ELSE Clip0(2 * (n0 - nhat))
Stat(name, mu, muhat, nmu, nhat, n0) ==
  CASE name \in {"qtilde", "qmutilde"} -> QTilde(mu, muhat, nmu, nhat, n0)
    [] name \in {"q", "qmu"} -> QMu(mu, muhat, nmu, nhat)
    [] name = "qmu_left" -> QMuLeft(mu, muhat, nmu, nhat)
    [] name = "q0" -> Q0(muhat, n0, nhat)
\* effective shift of the asymptotic formulae; "zero" stands for a vanishing Asimov statistic
Undefined(name, sq, sqA) == name \in {"qtilde", "qmutilde"} /\ sq > sqA /\ sqA = 0
\* q = sq^2 is passed for accuracy
Delta(name, q, qA) ==
  LET sq == SqrtM(q) sqA == SqrtM(qA) IN
  IF name \in {"q", "qmu", "q0"} \/ sq <= sqA THEN sq - sqA
  ELSE DivM(q - qA, 2 * sqA)
====
