---- MODULE FitDriverTrace ----
(* Verdict on recorded fits.
   k = "scipy": attempts recorded at scipy.optimize.minimize (init, bounds, pinned = set of <<parameter, value>> the
       constraints force, other = constraints on free parameters, method, tol, opts);
   k = "minuit": the single call recorded at iminuit;   k = "real": an unmodified fit of a separable parabola. *)
EXTENDS FitDriver, TLC, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tr, done
SetOf(s) == {s[i] : i \in 1..Len(s)}
Req(e) == [e.r EXCEPT !.fixed = SetOf(e.r.fixed), !.opts = SetOf(e.r.opts)]
WantPinned(r) == {<<j, Start(r)[j]>> : j \in Pinned(r)}
Tries(r, fails) == IF fails >= Trials(r) THEN Trials(r) ELSE fails + 1
Admissible(r, a) == \A j \in 1..Len(a.init) : j \in Fixed(r.fixed) \/ Holds(a.bounds[j], a.init[j]) 
ScipyAttempt(r, e, i) == LET a == e.attempts[i] IN
  IF i = 1 /\ a.init # Start(r) THEN "starting point"
  ELSE IF i = 1 /\ FirstBoundsClause(r, a.bounds) # "ok" THEN "bounds: " \o FirstBoundsClause(r, a.bounds)
  ELSE IF i > 1 /\ ~Widened(r, e.attempts[i - 1].bounds, a.bounds) THEN "bounds of a retry"
  ELSE IF i > 1 /\ ~Admissible(r, a) THEN "starting point of a retry"
  ELSE IF SetOf(a.pinned) # WantPinned(r) THEN "pinned parameters"
  ELSE IF a.other # e.user THEN "constraints"
  ELSE IF a.method # Opt(r, "method", "SLSQP") THEN "method"
  ELSE IF a.tol # Opt(r, "tol", "1e-06") THEN "tol"
  ELSE IF a.maxiter # Opt(r, "maxiter", "10000") \/ a.disp # Opt(r, "disp", "False") THEN "options"
  ELSE IF SetOf(a.keys) # {"maxiter", "disp"} THEN "unknown options leak"
  ELSE IF a.jac # e.grad \/ a.hess # e.hess THEN "derivatives"
  ELSE "ok"
ScipyV(e) == LET r == Req(e) n == Tries(r, e.fails) IN
  IF Len(e.attempts) # n THEN "number of attempts"
  ELSE IF \E i \in 1..n : ScipyAttempt(r, e, i) # "ok" THEN ScipyAttempt(r, e, CHOOSE i \in 1..n : ScipyAttempt(r, e, i) # "ok")
  ELSE IF e.x # e.points[n] THEN "returned point is not the last attempt"
  ELSE IF e.value # e.want THEN "value is not that of the returned point"
  ELSE IF ~e.clean THEN "objects of the caller changed" ELSE "ok"
MinuitV(e) == LET r == Req(e) IN
  IF Len(e.attempts) # 1 THEN "number of attempts"
  ELSE LET a == e.attempts[1] IN
    IF a.init # Start(r) THEN "starting point"
    ELSE IF FirstBoundsClause(r, a.bounds) # "ok" THEN "bounds: " \o FirstBoundsClause(r, a.bounds)
    ELSE IF SetOf(a.fixed) # Pinned(r) THEN "pinned parameters"
    ELSE IF a.routine # Opt(r, "method", "migrad") THEN "method"
    ELSE IF a.ncall # Opt(r, "maxiter", "10000") THEN "call limit"
    ELSE IF a.tol # Opt(r, "tol", "1e-06") THEN "tol"
    ELSE IF a.strategy # Opt(r, "strategy", "0") THEN "strategy"
    ELSE IF a.errordef # Opt(r, "errordef", "0.5") THEN "errordef"
    ELSE IF a.level # Opt(r, "disp", "0") THEN "print level"
    ELSE IF a.grad # e.grad THEN "derivatives"
    ELSE IF e.value # e.want THEN "value is not that of the returned point"
    ELSE IF ~e.clean THEN "objects of the caller changed" ELSE "ok"
\* separable parabola sum w (x - t)^2 / 2 with targets t, weights w (integers): the minimum is the clamped target; micro units
Clamp(pr, v) == IF pr[1] # None /\ v < pr[1] THEN pr[1] ELSE IF pr[2] # None /\ v > pr[2] THEN pr[2] ELSE v
Best(e, j) == IF \E p \in SetOf(e.fixed) : p[1] = j THEN ValueOf(SetOf(e.fixed), j) ELSE Clamp(e.bounds[j], e.t[j])
RECURSIVE SumTo(_, _)
SumTo(e, n) == IF n = 0 THEN 0 ELSE SumTo(e, n - 1) + e.w[n] * (Best(e, n) - e.t[n]) * (Best(e, n) - e.t[n])
Near(a, c, tol) == a - c <= tol /\ c - a <= tol
RealV(e) ==
  IF ~Near(e.value, e.at, 1) THEN "value is not that of the returned point"
  ELSE IF \E j \in 1..Len(e.t) : (\E p \in SetOf(e.fixed) : p[1] = j) /\ ~Near(e.x[j], 1000000 * Best(e, j), 2) THEN "fixed parameter moved"
  ELSE IF \E j \in 1..Len(e.t) : (\A p \in SetOf(e.fixed) : p[1] # j) /\
          ((e.bounds[j][1] # None /\ e.x[j] < 1000000 * e.bounds[j][1] - 100) \/ (e.bounds[j][2] # None /\ e.x[j] > 1000000 * e.bounds[j][2] + 100)) THEN "outside the bounds"
  ELSE IF e.limited THEN "ok"
  ELSE IF \E j \in 1..Len(e.t) : ~Near(e.x[j], 1000000 * Best(e, j), e.xtol) THEN "not the minimum"
  ELSE IF ~Near(e.value, 500000 * SumTo(e, Len(e.t)), e.vtol) THEN "value at the minimum" ELSE "ok"
Verdict(e) == CASE e.k = "scipy" -> ScipyV(e) [] e.k = "minuit" -> MinuitV(e) [] e.k = "real" -> RealV(e)
Init == tr \in 1..Len(Traces) /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED tr
        /\ LET e == Traces[tr] v == Verdict(e) IN IF v = "ok" THEN PrintT(<<"ACCEPT", tr>>) ELSE PrintT(<<"REJECT", tr, 1, v>>)
====
