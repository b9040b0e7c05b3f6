---- MODULE ContourTrace ----
(* Contours reported by the implementation: level, best fit, threshold and every point against the explicit deviance. *)
EXTENDS Contour, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tr, done
Tol == 15                                    \* 0.003 in the deviance
PTol == 60                                   \* points are rounded to 1/U before the deviance is formed
Steps(t) == {g * (U \div 2) : g \in -6..6} \cup {g * (U \div 10) : g \in -12..12}
GridN(t) == IF t.k = 1 THEN {<<a>> : a \in Steps(t)} ELSE IF t.k = 2 THEN {<<a, b>> : a \in Steps(t), b \in Steps(t)}
            ELSE {<<g[1] * (U \div 2), g[2] * (U \div 2), g[3] * (U \div 2)>> : g \in [1..3 -> -4..4]}
Grid(t) == {z \in GridN(t) : \A i \in 1..t.k : t.lo[i] <= z[i] /\ z[i] <= t.hi[i]}
Inside(t, z, slack) == \A i \in 1..t.k : t.lo[i] - slack <= z[i] /\ z[i] <= t.hi[i] + slack
P(t, z) == Prof(t.shape, z, t.lo, t.hi)
Q(t) == Quantile[t.k][t.cl]
\* the deviance on the contour in units of 1/U, kept within 32 bits
Level(t) == t.mindev + (Q(t) \div 1000) * 5 + ((Q(t) % 1000) * 5) \div 1000
Verdict(t) ==
  IF t.dof # t.k \/ t.samecl # 1 THEN "degrees of freedom or level of the result"
  ELSE IF Abs(t.delta - Q(t)) > 2 THEN "chi-square quantile"
  ELSE IF Abs(t.thr) > 100 THEN "threshold is the best value plus half the quantile"
  ELSE IF ~Inside(t, t.best, 1) THEN "best fit inside the bounds"
  ELSE IF Abs(P(t, t.best) - t.mindev) > Tol THEN "best value belongs to the best fit"
  ELSE IF \E z \in Grid(t) : P(t, z) < t.mindev - Tol THEN "best fit is the best"
  ELSE IF t.flags # t.n THEN "flags of the points"
  ELSE IF t.names # 1 THEN "parameter names"
  ELSE IF t.need = 1 /\ t.n = 0 THEN "no point found"
  ELSE IF \E i \in 1..Len(t.pts) : ~Inside(t, t.pts[i], 1) THEN "points inside the bounds"
  ELSE IF \E i \in 1..Len(t.pts) : Abs(P(t, t.pts[i]) - Level(t)) > PTol THEN "points on the level set"
  ELSE IF \E i \in 1..Len(t.res) : Abs(t.res[i]) > t.restol THEN "points within the stated tolerance"
  ELSE "ok"
Init == tr \in 1..Len(Traces) /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED tr
        /\ LET v == Verdict(Traces[tr]) IN IF v = "ok" THEN PrintT(<<"ACCEPT", tr>>) ELSE PrintT(<<"REJECT", tr, 1, v>>)
====
