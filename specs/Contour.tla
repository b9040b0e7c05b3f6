---- MODULE Contour ----
(* Confidence contours of models whose deviance is an explicit polynomial.  Each shape gives residuals r_1..r_n as functions of
   the signal parameters z (at signal strength one); the deviance is the sum of their squares plus a constant and
   the negative log-likelihood is half of it.  Coordinates are integers in units of 1/U.  Shapes are triangular in their last
   coordinates, so that the deviance profiled over those is explicit, also when a profiled coordinate is bounded. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
U == 5000
Big == 20000                                   \* residuals beyond this are "far" (their squares would overflow)
Sq(x) == (x * x) \div U                        \* in units of 1/U
Abs(x) == IF x < 0 THEN -x ELSE x
Mul(x, y) == (x * y) \div U
Dims == <<1, 1, 2, 2, 3, 2, 3>>
NShapes == Len(Dims)
\* last coordinates with an explicit profile: shape s admits contours in its first m coordinates for m in Firsts[s]
Firsts == <<{1}, {1}, {1, 2}, {2}, {1, 2, 3}, {1, 2}, {2, 3}>>
(* location of the profiled minimum of coordinate j given the previous ones (unbounded) *)
Centre(s, j, z) ==
  CASE s = 1 -> 1750
    [] s = 3 /\ j = 2 -> (z[1] + 1250) \div 2
    [] s = 5 /\ j = 2 -> 2500 - z[1]
    [] s = 5 /\ j = 3 -> (z[1] + z[2]) \div 2
    [] s = 6 /\ j = 2 -> Mul(z[1], z[1])
    [] s = 7 /\ j = 3 -> z[1] - 2 * z[2]
    [] OTHER -> 0
(* the residuals *)
Res(s, z) ==
  CASE s = 1 -> <<2 * z[1] - 3500, z[1] + 2500>>
    [] s = 2 -> <<2 * (Mul(z[1], z[1]) - U), z[1] - U \div 4>>
    [] s = 3 -> <<z[1] - 2500, 4 * z[2] - 2 * z[1] - 2500>>
    [] s = 4 -> <<z[1] + Mul(z[2], z[2]) - U, 2 * z[1] - z[2]>>
    [] s = 5 -> <<2 * z[1] - 1000, z[2] + z[1] - 2500, 4 * z[3] - 2 * z[1] - 2 * z[2]>>
    [] s = 6 -> <<2 * z[1] - 5000, z[2] - Mul(z[1], z[1])>>
    [] s = 7 -> <<z[1] + 2000, 2 * z[2] + z[1], z[3] - z[1] + 2 * z[2]>>
Far(s, z) == (s \in {2, 4, 6} /\ \E i \in 1..Len(z) : Abs(z[i]) > 45000) \/ \E i \in DOMAIN z : Abs(z[i]) > 200000
FarR(r) == \E i \in 1..Len(r) : Abs(r[i]) > Big
RECURSIVE Sum(_, _)
Sum(r, i) == IF i = 0 THEN 0 ELSE Sq(r[i]) + Sum(r, i - 1)
Dev(s, z) == IF Far(s, z) THEN 10000000 ELSE LET r == Res(s, z) IN IF FarR(r) THEN 10000000 ELSE Sum(r, Len(r))
Clip(x, lo, hi) == IF x < lo THEN lo ELSE IF x > hi THEN hi ELSE x
(* completing the first coordinates with the profiled ones *)
RECURSIVE Fill(_, _, _, _)
Fill(s, z, lo, hi) == IF Len(z) = Dims[s] THEN z
                      ELSE LET j == Len(z) + 1 IN Fill(s, Append(z, Clip(Centre(s, j, z), lo[j], hi[j])), lo, hi)
Prof(s, z, lo, hi) == IF s \in {2, 4, 6} /\ \E i \in 1..Len(z) : Abs(z[i]) > 45000 THEN 10000000 ELSE Dev(s, Fill(s, z, lo, hi))
(* chi-square quantiles in millionths: rows are degrees of freedom, columns confidence levels 50, 68, 90, 95, 99 percent *)
CLs == <<50, 68, 90, 95, 99>>
Quantile == <<<<454936, 988946, 2705543, 3841459, 6634897>>,
              <<1386294, 2278869, 4605170, 5991465, 9210340>>,
              <<2365974, 3505882, 6251389, 7814728, 11344867>>>>
====
