---- MODULE Builtin ----
(* The built-in statistical models: parameter layout, predicted rates, likelihood terms.
   A configuration c is a record of integers (all yields and uncertainties are integers):
     fam   family;  b, s, n background, signal, data (halves for explicit data);  sg, dn uncertainties (upper, lower);
     C     third-moment coefficients (sg then plays the role of B);  rho correlations in percent;
     cs    whether the widths of the normal families are functions of the parameters (1) or numbers (0);
     mods  signal uncertainties [kind, up, dn];  nsp number of signal parameters, g their slopes, call: signal is a function.
   Parameters p are in micro units, in the documented order: strength, signal parameters, background nuisances
   (one per bin), signal-uncertainty nuisances in order of declaration. *)
EXTENDS LnTab
Simple == {"poisson", "poissonunc", "normal", "mvn"}
K(c) == Len(c.b)
RECURSIVE SumTo(_, _)
SumTo(f, k) == IF k = 0 THEN 0 ELSE f[k] + SumTo(f, k - 1)
Sum(f) == SumTo(f, Len(f))
ModPars(c, m) == IF c.mods[m].kind = "normalization" THEN 1 ELSE K(c)
NSig(c) == Sum([m \in 1..Len(c.mods) |-> ModPars(c, m)])
NBkg(c) == IF c.fam \in Simple \ {"poissonunc"} THEN 0 ELSE K(c)
NPar(c) == 1 + c.nsp + NBkg(c) + NSig(c)
Theta(c, p, i) == p[1 + c.nsp + i]
RECURSIVE Offset(_, _)
Offset(c, m) == IF m = 1 THEN 1 + c.nsp + K(c) ELSE Offset(c, m - 1) + ModPars(c, m - 1)
Alpha(c, p, m, i) == p[Offset(c, m) + (IF c.mods[m].kind = "normalization" THEN 1 ELSE i)]
\* names: given exactly when there are parameters beyond strength and background nuisances (always for the simple families)
Named(c) == c.fam \in {"poisson", "normal", "mvn"} \/ (c.fam # "poissonunc" /\ (c.nsp > 0 \/ NSig(c) > 0))
RECURSIVE ModNames(_, _)
ModNames(c, m) == IF m > Len(c.mods) THEN <<>>
  ELSE (IF c.mods[m].kind = "normalization" THEN << <<"theta_sig_", c.mods[m].name, -1>> >>
        ELSE [i \in 1..K(c) |-> <<"theta_sig_", c.mods[m].name, i - 1>>]) \o ModNames(c, m + 1)
Names(c) == <<<<"mu", "", -1>>>> \o [j \in 1..c.nsp |-> <<"signal_par", "", j - 1>>] \o [i \in 1..NBkg(c) |-> <<"theta_bkg", "", i - 1>>] \o ModNames(c, 1)
Alive(c) == IF c.call THEN TRUE ELSE \E i \in 1..K(c) : c.s[i] > 0
\* smallest strength with non-negative background plus signal: -min b/s
MinPoi(c) == IF c.call \/ ~Alive(c) THEN NegInf
             ELSE LET R == {i \in 1..K(c) : c.s[i] > 0} i == CHOOSE x \in R : \A y \in R : c.b[x] * c.s[y] <= c.b[y] * c.s[x] IN -RMicro(Rat(c.b[i], c.s[i]))
\* signal uncertainties: delta^alpha per bin, upper variation for positive alpha; alpha in half units
DeltaOf(d, s) == IF s = 0 \/ d < 0 THEN ONE ELSE ONE + RMicro(Rat(d, s))
RECURSIVE PowI(_, _)
PowI(x, k) == IF k = 0 THEN ONE ELSE MulM(x, PowI(x, k - 1))
Pow(x, h) ==          \* x^(h/2)
  LET a == AbsV(h) v == MulM(PowI(x, a \div 2), IF a % 2 = 1 THEN SqrtM(x) ELSE ONE) IN IF h < 0 THEN DivM(ONE, v) ELSE v
ModFactor(c, p, m, i) == LET h == Alpha(c, p, m, i) \div 500000 IN Pow(DeltaOf(IF h > 0 THEN c.mods[m].up[i] ELSE c.mods[m].dn[i], c.s[i]), h)
RECURSIVE Factor(_, _, _, _)
Factor(c, p, i, m) == IF m = 0 THEN ONE ELSE MulM(ModFactor(c, p, m, i), Factor(c, p, i, m - 1))
Signal(c, p, i) == IF c.call THEN c.s[i] * ONE + Sum([j \in 1..c.nsp |-> p[1 + j] * c.g[j][i]]) ELSE c.s[i] * ONE
SigTerm(c, p, i) == MulM(MulM(p[1], Signal(c, p, i)), Factor(c, p, i, Len(c.mods)))
EffVar(c, p, i) == c.sg[i] * c.dn[i] * ONE + (c.sg[i] - c.dn[i]) * (Theta(c, p, i) - c.b[i] * ONE)
BkgTerm(c, p, i) ==
  CASE c.fam \in {"poisson", "normal", "mvn"} -> c.b[i] * ONE
    [] c.fam \in {"uncorr", "corr", "poissonunc"} -> c.b[i] * ONE + c.sg[i] * Theta(c, p, i)
    [] c.fam = "third" -> (c.b[i] - c.C[i]) * ONE + c.sg[i] * Theta(c, p, i) + c.C[i] * MulM(Theta(c, p, i), Theta(c, p, i))
    [] c.fam = "effsig" -> c.b[i] * ONE + MulM(IF EffVar(c, p, i) <= 0 THEN 10 ELSE SqrtM(EffVar(c, p, i)), Theta(c, p, i))
Rate(c, p, i) == BkgTerm(c, p, i) + SigTerm(c, p, i)
Rates(c, p) == [i \in 1..K(c) |-> Rate(c, p, i)]
NAux(c) == IF c.fam \in Simple THEN 0 ELSE K(c) + NSig(c)
Positive(c, p) == c.fam \in {"normal", "mvn"} \/ \A i \in 1..K(c) : Rate(c, p, i) > 10000
ExpectedData(c, p) == Rates(c, p)
\* correlated normal terms: at most three dimensions, correlations in percent
Det(c) == LET r == c.rho IN CASE K(c) = 1 -> 1000000 [] K(c) = 2 -> 1000000 - 100 * r[1][2] * r[1][2]
          [] K(c) = 3 -> 1000000 + 2 * r[1][2] * r[1][3] * r[2][3] - 100 * (r[1][2] * r[1][2] + r[1][3] * r[1][3] + r[2][3] * r[2][3])
O3(i, j) == CHOOSE k \in 1..3 : k # i /\ k # j
Adj(c, i, j) == LET r == c.rho IN      \* adjugate times 1e4
  CASE K(c) = 1 -> 10000
    [] K(c) = 2 -> IF i = j THEN 10000 ELSE -100 * r[1][2]
    [] K(c) = 3 -> IF i = j THEN LET a == O3(i, IF i = 1 THEN 2 ELSE 1) q == O3(i, a) IN 10000 - r[a][q] * r[a][q]
                   ELSE LET k == O3(i, j) IN r[i][k] * r[k][j] - 100 * r[i][j]
Inv(c, i, j) == RMicro(Rat(Adj(c, i, j) * 100, Det(c)))
Quad(c, z) == Sum([i \in 1..K(c) |-> Sum([j \in 1..K(c) |-> MulM(MulM(z[i], Inv(c, i, j)), z[j])])])
CorrNormal(c, z) == -(Quad(c, z) + K(c) * Ln2Pi + (LnM(Det(c)))) \div 2
UnitNormals(zs) == -(Sum([i \in 1..Len(zs) |-> SqM(zs[i])]) + Len(zs) * Ln2Pi) \div 2
PoissonTerm(h, lam) == (h * LnM(lam)) \div 2 - lam - LnGammaHalf(h)
\* normal families: widths may grow with the parameters
WidthFactor(c, p) == IF c.cs = 0 THEN ONE ELSE ONE + (Sum([j \in 1..(1 + c.nsp) |-> SqM(p[j])]) \div 4)
Pull(c, p, h, lam, i) == LET x == (h * 500000 - lam) \div c.sg[i] IN IF c.cs = 0 THEN x ELSE IF x < 0 THEN -DivM(-x, WidthFactor(c, p)) ELSE DivM(x, WidthFactor(c, p))
LnWidths(c, p) == Sum([i \in 1..K(c) |-> LnIntTab[c.sg[i]]]) + (IF c.cs = 0 THEN 0 ELSE K(c) * LnM(WidthFactor(c, p)))
\* main term for counts given in halves
Main(c, p, d2) ==
  LET lam == Rates(c, p) IN
  CASE c.fam \notin {"normal", "mvn"} -> Sum([i \in 1..K(c) |-> PoissonTerm(d2[i], lam[i])])
    [] c.fam = "normal" -> UnitNormals([i \in 1..K(c) |-> Pull(c, p, d2[i], lam[i], i)]) - LnWidths(c, p)
    [] c.fam = "mvn" -> CorrNormal(c, [i \in 1..K(c) |-> Pull(c, p, d2[i], lam[i], i)]) - LnWidths(c, p)
Th(c, p) == [i \in 1..K(c) |-> Theta(c, p, i)]
SigPars(c, p) == [j \in 1..NSig(c) |-> p[1 + c.nsp + K(c) + j]]
Constraint(c, p) ==
  CASE c.fam \in Simple -> 0
    [] c.fam = "uncorr" -> UnitNormals(Th(c, p)) + UnitNormals(SigPars(c, p))
    [] OTHER -> CorrNormal(c, Th(c, p)) + UnitNormals(SigPars(c, p))
LogProb(c, p, d2) == Main(c, p, d2) + Constraint(c, p)
\* inputs of the third-moment family that lead to sg (= B), C and rho
Sigma(c, i, j) == c.sg[i] * c.sg[j] * c.rho[i][j] * 100 + 2 * c.C[i] * c.C[j] * c.rho[i][j] * c.rho[i][j]   \* times 1e4
M3(c, i) == 6 * c.sg[i] * c.sg[i] * c.C[i] + 8 * c.C[i] * c.C[i] * c.C[i]
\* the same with the signal uncertainties taken away
Plain(c) == [c EXCEPT !.mods = <<>>]
PlainP(c, p) == SubSeq(p, 1, 1 + c.nsp + NBkg(c))
====
