---- MODULE ToyCL ----
(* Toy based exclusion levels.  One bin, unit error, signal 1 per unit strength: data n, background b,
   best fit n - b (not below 0 for q~).  A toy is one integer count.  Exact values: statistics in half units
   (integers), percentiles in micro units. *)
EXTENDS Fix, TLC, Json, Sequences, FiniteSets
CONSTANTS Emit, B, NObs, Mus, ToySets, Negs
VARIABLES mu, neg, obs, sig, bkg, prior
vars == <<mu, neg, obs, sig, bkg, prior>>
\* statistic of count n at tested value mu (integers): (n-b-mu)^2 - reference
T(n, m, ng) ==
  LET h == n - B IN
  IF ng THEN IF h > m THEN 0 ELSE (h - m) * (h - m)
  ELSE IF h > m THEN 0 ELSE (h - m) * (h - m) - (IF h < 0 THEN h * h ELSE 0)
\* number of toys whose statistic reaches a threshold given in micro units
Count(s, x, m, ng) == Cardinality({i \in 1..Len(s) : T(s[i], m, ng) * ONE >= x})
RECURSIVE SortSeqV(_)
InsertV(x, s) == LET k == Cardinality({i \in 1..Len(s) : s[i] <= x}) IN SubSeq(s, 1, k) \o <<x>> \o SubSeq(s, k + 1, Len(s))
SortSeqV(s) == IF s = <<>> THEN <<>> ELSE InsertV(Head(s), SortSeqV(Tail(s)))
\* percentile p (micro) of the integers s with linear interpolation, micro units
Percentile(s, p) ==
  LET t == SortSeqV(s) pos == (Len(t) - 1) * p i == pos \div ONE f == pos % ONE IN
  IF i + 1 >= Len(t) THEN t[Len(t)] * ONE ELSE t[i + 1] * ONE + (t[i + 2] - t[i + 1]) * f
\* Phi(2), Phi(1), Phi(0), Phi(-1), Phi(-2)
Quant == <<977250, 841345, 500000, 158655, 22750>>
\* exclusion levels as <<numerator, denominator>>: 1 - (sig count) / (bkg count), toys of equal number
Level(x, m, ng, s, b) ==
  LET cs == Count(s, x, m, ng) cb == Count(b, x, m, ng) IN
  IF cb = 0 THEN <<1, 1>> ELSE LET r == MinV(cs, cb) IN <<cb - r, cb>>
Obs0 == IF prior THEN B ELSE obs
ObsLevel == Level(T(Obs0, mu, neg) * ONE, mu, neg, sig, bkg)
BkgStats == [i \in 1..Len(bkg) |-> T(bkg[i], mu, neg)]
ExpLevel == [k \in 1..5 |-> Level(Percentile(BkgStats, Quant[k]), mu, neg, sig, bkg)]
\* thresholds that fall (nearly) on a toy's value by interpolation are left out of the comparison
Delicate(x, s, m, ng) == \E i \in 1..Len(s) : LET d == AbsV(T(s[i], m, ng) * ONE - x) IN d > 0 /\ d < 300
Mask == [k \in 1..5 |-> LET x == Percentile(BkgStats, Quant[k]) IN ~Delicate(x, sig, mu, neg) /\ ~Delicate(x, bkg, mu, neg)]
Init == /\ mu \in Mus /\ neg \in Negs /\ obs \in NObs /\ sig \in ToySets /\ bkg \in ToySets /\ prior \in BOOLEAN
        /\ Len(sig) = Len(bkg) /\ sig # bkg
        /\ (neg \/ mu >= 0)          \* negative strengths are tested where they are allowed
Next == UNCHANGED vars
\* consequences
Range == \A l \in {ObsLevel} \cup {ExpLevel[k] : k \in 1..5} : l[1] >= 0 /\ l[1] <= l[2]
\* identical toys for both hypotheses never exclude
NoSeparation == Level(T(Obs0, mu, neg) * ONE, mu, neg, sig, sig)[1] = 0 \/ Count(sig, T(Obs0, mu, neg) * ONE, mu, neg) = 0
PercentileOrder == \A k \in 1..4 : Percentile(BkgStats, Quant[k]) >= Percentile(BkgStats, Quant[k + 1])
Out == Emit => PrintT("@" \o ToJson([mu |-> mu, neg |-> neg, obs |-> obs, prior |-> prior, sig |-> sig, bkg |-> bkg,
          o |-> ObsLevel, x |-> ExpLevel, mask |-> Mask]))
====
