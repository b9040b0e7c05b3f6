---- MODULE QueryFits ----
(* What a query of a statistical model fits.  A request carries a starting point, bounds, options and a constraint of the
   caller's; every fit behind the query is the conditional or free fit the query is about, and each of them starts at the given
   point, within the given bounds, with the given options and constraint.  TLC enumerates requests; recorded fits are judged by
   QueryFitsTrace. *)
EXTENDS Integers, Sequences, FiniteSets
Queries == {"likelihood", "maximum", "asimov", "asimov-max", "asimov-data", "sampler", "sigma", "sigma-hessian", "chi2", "chi2-many", "chi2-point",
            "pull", "pull-many", "pull-map", "excl", "excl-q", "excl-toy", "excl-chi", "significance", "limit"}
Stats == {"qtilde", "q", "q0"}
HasStat == {"asimov", "asimov-max", "asimov-data", "sigma"}
\* strength at which Asimov data are made
At(ts) == IF ts = "q0" THEN "one" ELSE "zero"
\* fits which may occur: signal strength free or held at: the tested value, another tested value, zero, one
May(q, ts) == CASE q = "likelihood" -> {"mu"}
  [] q = "maximum" -> {"free"}
  [] q = "asimov" -> {At(ts), "mu"}
  [] q = "asimov-max" -> {At(ts), "free"}
  [] q = "asimov-data" -> {At(ts)}
  [] q \in {"sampler", "sigma-hessian"} -> {"mu"}
  [] q = "sigma" -> {At(ts), "free", "mu", "zero"}
  [] q \in {"chi2", "pull", "pull-map"} -> {"free", "mu"}
  [] q \in {"chi2-many", "pull-many"} -> {"free", "mu", "other"}
  [] q = "chi2-point" -> {"mu", "other"}
  [] q \in {"excl", "excl-q", "excl-toy", "excl-chi"} -> {"free", "mu", "zero"}
  [] q = "significance" -> {"free", "zero", "one"}
  [] q = "limit" -> {"free", "zero", "one", "mu", "other"}
\* fits without which the query can not be answered by the generic route
Must(q, ts) == CASE q \in {"likelihood", "maximum", "asimov", "asimov-max", "asimov-data", "sampler", "sigma-hessian", "chi2", "pull", "pull-map", "chi2-many", "pull-many", "chi2-point"} -> May(q, ts)
  [] q = "sigma" -> {}
  [] q \in {"excl", "excl-q"} -> {"free", "zero"}
  [] q \in {"excl-toy"} -> {"free", "mu", "zero"}
  [] q = "excl-chi" -> {"free"}
  [] q = "significance" -> {"free", "one"}
  [] q = "limit" -> {"free", "zero", "other"}
ASSUME \A q \in Queries, ts \in Stats : Must(q, ts) \subseteq May(q, ts)
====
