---- MODULE SigMC ----
(* Discovery significance of one-bin models.  ex = "apriori" replaces the data by the background prediction. *)
EXTENDS ConfLevel, TLC, Json
CONSTANTS Emit, Ns, Ss, Ts
VARIABLES m, ex
vars == <<m, ex>>
B == 6
mm == IF ex = "apriori" THEN AtPrior(m) ELSE m
Q0Of(k) == LET h == Hat(k) IN IF h[1] <= 0 THEN 0 ELSE RMicro(RKap(k, RMul(h, h)))
Sq0(k) == SqrtM(Q0Of(k))
Sq0A == SqrtM(RMicro(Kappa(mm)))         \* data generated for one unit of signal
LnP(k) == LogPhi(-Sq0(k))
LnPE == LnPExp(Sq0A)
Init == m \in [n : Ns, b : {B}, s : Ss, t : Ts] /\ ex \in {"observed", "apriori", "aposteriori"}
Next == UNCHANGED vars
NoExcess == mm.n <= mm.b => Sq0(mm) = 0 /\ Near(LnP(mm), -693147, 200)
\* more data never means less significance; the p-value follows
Monotone == \A n2 \in Ns : n2 > mm.n => LET k == [mm EXCEPT !.n = n2] IN Sq0(k) >= Sq0(mm) /\ LnP(k) <= LnP(mm) + 200
Ordered == \A i \in 1..4 : LnPE[i] <= LnPE[i + 1] + 60
\* the median expected p-value belongs to the expected significance
Central == LnPE[3] = LogPhi(-Sq0A)
\* a better measured background makes the same excess more significant
Precision == \A t2 \in Ts : t2 > m.t => Sq0([mm EXCEPT !.t = t2]) <= Sq0(mm)
Out == Emit => PrintT("@" \o ToJson([m |-> m, ex |-> ex, sA |-> Sq0A, s |-> Sq0(mm), lnp |-> LnP(mm), lnpe |-> LnPE]))
====
