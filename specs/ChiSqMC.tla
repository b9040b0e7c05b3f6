---- MODULE ChiSqMC ----
(* Profile-likelihood chi-square of one-bin models: value tables, references and interval endpoints. *)
EXTENDS ConfLevel, TLC, Json
CONSTANTS Emit, Ns, Ss, Ts
VARIABLES m, ex, neg, ref, lim, cl
vars == <<m, ex, neg, ref, lim, cl>>
B == 5
Mus == <<<<-1, 1>>, <<0, 1>>, <<1, 2>>, <<1, 1>>, <<5, 2>>>>
Ths == <<<<-1, 2>>, <<0, 1>>, <<1, 1>>>>
mm == IF ex = "apriori" THEN AtPrior(m) ELSE m
\* nll at an explicit point (mu, th), exact
Full(mu, th) == LET r == RSub(RInt(mm.n - mm.b), RAdd(RMul(<<mm.s, 1>>, mu), RMul(<<mm.t, 1>>, th)))
                IN RMul(<<1, 2>>, RAdd(RMul(r, r), RMul(th, th)))
Prof(mu) == Nll(mm, mu)
BestFit == IF neg \/ ~RLt(Hat(mm), <<0, 1>>) THEN Hat(mm) ELSE <<0, 1>>
Ref == CASE ref = "fit" -> Prof(BestFit) [] ref = "zero" -> Prof(<<0, 1>>) [] ref = "two" -> Prof(<<2, 1>>) [] ref = "point" -> Full(<<1, 1>>, <<1, 2>>)
Two(x) == RMicro(RMul(<<2, 1>>, RSub(x, Ref)))
ChiMu == [i \in 1..Len(Mus) |-> Two(Prof(Mus[i]))]
ChiPt == [i \in 1..Len(Mus) |-> [j \in 1..Len(Ths) |-> Two(Full(Mus[i], Ths[j]))]]
\* squared normal quantiles z^2 with Phi(z) = (1 + CL)/2
ZSq(c) == CASE c = 68 -> 988946 [] c = 90 -> 2705543 [] c = 95 -> 3841459 [] c = 99 -> 6634897
ASSUME \A c \in {68, 90, 95, 99} : LET z == SqrtM(ZSq(c)) tail == LogPhi(-z) IN
          Near(tail, CASE c = 68 -> -1832581 [] c = 90 -> -2995732 [] c = 95 -> -3688879 [] c = 99 -> -5298317, 200)
hatM == RMicro(Hat(mm))
inv == RDiv(<<1, 1>>, Kappa(mm))
width2 == MulM(ZSq(cl), RMicro(inv))              \* z^2 / kappa
Lo == hatM - SqrtM(width2)
\* right limits keep the signal non-negative unless asked otherwise
Hi == IF neg \/ lim # "right" \/ hatM >= 0 THEN hatM + SqrtM(width2) ELSE hatM + SqrtM(SqM(hatM) + width2)
Ends == CASE lim = "left" -> <<Lo>> [] lim = "right" -> <<Hi>> [] lim = "two-sided" -> <<Lo, Hi>>
\* nuisance intervals, signal fixed to 1 / to 0 / profiled
ThHat == RMul(<<mm.t, 1 + mm.t * mm.t>>, RInt(mm.n - mm.b - mm.s))
ThW == SqrtM(MulM(ZSq(cl), RMicro(<<1, 1 + mm.t * mm.t>>)))
ThEnds1 == CASE lim = "left" -> <<RMicro(ThHat) - ThW>> [] lim = "right" -> <<RMicro(ThHat) + ThW>> [] OTHER -> <<RMicro(ThHat) - ThW, RMicro(ThHat) + ThW>>
ThHat0 == RMul(<<mm.t, 1 + mm.t * mm.t>>, RInt(mm.n - mm.b))
ThEnds0 == CASE lim = "left" -> <<RMicro(ThHat0) - ThW>> [] lim = "right" -> <<RMicro(ThHat0) + ThW>> [] OTHER -> <<RMicro(ThHat0) - ThW, RMicro(ThHat0) + ThW>>
ThEndsF == LET z == SqrtM(ZSq(cl)) IN CASE lim = "left" -> <<-z>> [] lim = "right" -> <<z>> [] OTHER -> <<-z, z>>
Init == /\ m \in [n : Ns, b : {B}, s : Ss, t : Ts] /\ ex \in {"observed", "apriori", "aposteriori"} /\ neg \in BOOLEAN
        /\ ref \in {"fit", "zero", "two", "point"} /\ lim \in {"left", "right", "two-sided"} /\ cl \in {68, 90, 95, 99}
        /\ (ref # "fit" => lim = "left" /\ cl = 95)
Next == UNCHANGED vars
NonNegative == (ref = "fit" /\ neg) => \A i \in 1..Len(Mus) : ChiMu[i] >= 0 /\ \A j \in 1..Len(Ths) : ChiPt[i][j] + 2 >= ChiMu[i]
Sides == Lo < hatM /\ Hi > hatM
Wider == \A c2 \in {68, 90, 95, 99} : ZSq(c2) > ZSq(cl) => MulM(ZSq(c2), RMicro(inv)) > width2
Out == Emit => PrintT("@" \o ToJson([m |-> m, ex |-> ex, neg |-> neg, ref |-> ref, lim |-> lim, cl |-> cl, mu |-> ChiMu, pt |-> ChiPt,
          ends |-> Ends, th0 |-> ThEnds0, th1 |-> ThEnds1, thf |-> ThEndsF]))
====
