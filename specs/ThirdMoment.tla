---- MODULE ThirdMoment ----
(* The quadratic expansion  A + B theta + C theta^2  of a skewed background and the moments it must reproduce.  The
   configurations start from (B, C, rho): the moments follow by elementary algebra, and the expansion of those moments has to
   return where they came from (the relation is one-to-one, see Injective). *)
EXTENDS Builtin, TLC, Json
CONSTANTS Emit, Bs, Cs, Rhos, Means, BadPairs, Ups, Dns
VARIABLES x
Mean(r) == r.A + r.C
Var(r) == r.B * r.B + 2 * r.C * r.C
Third(r) == 6 * r.B * r.B * r.C + 8 * r.C * r.C * r.C
Pairs == [B : Bs, C : Cs]
Admissible(B1, C1, B2, C2, rho) == B1 * B2 * 100 + 4 * C1 * C2 * rho > 100
\* two bins (a, b) with correlation rho in percent; entries of the covariance times 1e4
Cov(a, b, rho) == a.B * b.B * rho * 100 + 2 * a.C * b.C * rho * rho
TwoBins == {[kind |-> "two", a |-> a, b |-> b, rho |-> rho, m |-> m] : a \in Pairs, b \in Pairs, rho \in Rhos, m \in Means}
\* a bin whose third moment is too large for its variance next to a good one: its expansion is linear, the other one unaffected
BadBins == {[kind |-> "bad", v |-> p[1], m3 |-> p[2], b |-> b, m |-> m] : p \in BadPairs, b \in Pairs, m \in Means}
TooLarge(p) == 8 * p[1] * p[1] * p[1] < p[2] * p[2]
\* third moment of a two-sided Gaussian with widths u (upper) and d (lower): 4 / sqrt(2 pi) (u - d)(u^2 + d^2)
FourOverRoot == 1595769
Sides == {[kind |-> "sides", u |-> u, d |-> d] : u \in Ups, d \in Dns}
SidesM3(u, d) == LET f == (u - d) * (u * u + d * d) IN f * 1595769
Init == x \in {t \in TwoBins : Admissible(t.a.B, t.a.C, t.b.B, t.b.C, t.rho) /\ (t.rho < 100)} \cup {t \in BadBins : TooLarge(<<t.v, t.m3>>)} \cup Sides
Next == UNCHANGED x
Injective == x.kind = "two" => \A q \in Pairs : (Var(q) = Var(x.a) /\ Third(q) = Third(x.a)) => q = x.a
Condition == x.kind = "two" => 8 * Var(x.a) * Var(x.a) * Var(x.a) >= Third(x.a) * Third(x.a)
Odd == x.kind = "sides" => SidesM3(x.u, x.d) = -SidesM3(x.d, x.u) /\ SidesM3(x.u, x.u) = 0 /\ (x.u > x.d => SidesM3(x.u, x.d) > 0)
Row == CASE x.kind = "two" -> [kind |-> "two", mean |-> <<x.m, x.m + 3>>, cov |-> <<Var(x.a) * 10000, Cov(x.a, x.b, x.rho), Var(x.b) * 10000>>, m3 |-> <<Third(x.a), Third(x.b)>>,
                               A |-> <<x.m - x.a.C, x.m + 3 - x.b.C>>, B |-> <<x.a.B, x.b.B>>, C |-> <<x.a.C, x.b.C>>, rho |-> x.rho]
         [] x.kind = "bad" -> [kind |-> "bad", mean |-> <<x.m, x.m>>, v |-> <<x.v, Var(x.b)>>, m3 |-> <<x.m3, Third(x.b)>>,
                               A |-> <<x.m, x.m - x.b.C>>, B |-> <<SqrtM(x.v * ONE), x.b.B * ONE>>, C |-> <<0, x.b.C>>]
         [] x.kind = "sides" -> [kind |-> "sides", u |-> x.u, d |-> x.d, m3 |-> SidesM3(x.u, x.d)]
(* the relations have no scale of their own: yields counted in other units give the same expansion in those units, which is why
   every case is also asked in small and in large units *)
Times(r, u) == [B |-> u * r.B, C |-> u * r.C]
NoScale == x.kind = "two" => \A u \in 2..3 : /\ Var(Times(x.a, u)) = u * u * Var(x.a) /\ Third(Times(x.a, u)) = u * u * u * Third(x.a)
                                            /\ Cov(Times(x.a, u), Times(x.b, u), x.rho) = u * u * Cov(x.a, x.b, x.rho)
Out == Emit => PrintT("@" \o ToJson(Row))
====
