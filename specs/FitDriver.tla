---- MODULE FitDriver ----
(* The fit driver between a statistical model and a numerical minimiser.
   Request: cfg (poi, min, init, bounds, sfixed), fixed (set of <<parameter, value>>), ibounds/iinit (explicit bounds and
   starting point, or <<>>), ntrials (0: not given), opts (set of <<option, value>> given by the caller).
   An attempt is one call of the numerical routine; it fails or succeeds at a point. *)
EXTENDS ParamSpace
Trials(r) == IF r.ntrials < 1 THEN 1 ELSE r.ntrials
Pinned(r) == Fixed(r.fixed) \cup {j \in 1..Len(r.cfg.bounds) : r.cfg.sfixed[j]}
Start(r) == LET s == IF r.iinit # <<>> THEN r.iinit ELSE r.cfg.init
            IN [j \in 1..Len(s) |-> IF j \in Fixed(r.fixed) THEN ValueOf(r.fixed, j) ELSE s[j]]
\* bounds of the first attempt: explicit ones as given, otherwise those of the configuration edited for the fixed values
FirstBoundsClause(r, b) == IF r.ibounds # <<>> THEN (IF b = r.ibounds THEN "ok" ELSE "explicit bounds not passed on")
                           ELSE FixClause(r.cfg, r.fixed, b)
\* documented widening after a failure: signal strength upper bound doubled, others ten times per side; never shrinking
WiderSide(old, new, f, up) == IF old = None THEN new = None
                              ELSE IF (up /\ old > 0) \/ (~up /\ old < 0) THEN new = f * old
                              ELSE IF up THEN new >= old ELSE new <= old
WidenedPair(r, j, old, new) == IF j = r.cfg.poi THEN new[1] = old[1] /\ WiderSide(old[2], new[2], 2, TRUE)
                               ELSE WiderSide(old[1], new[1], 10, FALSE) /\ WiderSide(old[2], new[2], 10, TRUE)
Widened(r, old, new) == Len(old) = Len(new) /\ \A j \in 1..Len(old) : WidenedPair(r, j, old[j], new[j])
\* one reference way of doing it (shows that the relation can be met)
RefSide(old, f, up) == IF old = None THEN None ELSE IF (up /\ old > 0) \/ (~up /\ old < 0) THEN f * old ELSE old
RefWiden(r, b) == [j \in 1..Len(b) |-> IF j = r.cfg.poi THEN <<b[j][1], RefSide(b[j][2], 2, TRUE)>>
                                        ELSE <<RefSide(b[j][1], 10, FALSE), RefSide(b[j][2], 10, TRUE)>>]
RefFirst(r) == IF r.ibounds # <<>> THEN r.ibounds ELSE [j \in Par(r.cfg) |->
    IF j \in Fixed(r.fixed) /\ ~Inside(r.cfg.bounds[j], ValueOf(r.fixed, j))
    THEN LET v == ValueOf(r.fixed, j) pr == r.cfg.bounds[j]
         IN <<IF pr[1] = None THEN None ELSE IF pr[1] < v THEN pr[1] ELSE v - 1, IF pr[2] = None THEN None ELSE IF pr[2] > v THEN pr[2] ELSE v + 1>>
    ELSE r.cfg.bounds[j]]
\* options that must arrive at the routine (given or default), by minimiser
Given(r, n) == \E o \in r.opts : o[1] = n
Opt(r, n, d) == IF Given(r, n) THEN (CHOOSE o \in r.opts : o[1] = n)[2] ELSE d
====
