---- MODULE DistMC ----
(* Constraint terms as authors of plug-ins write them: normal and correlated normal terms, each on its own stretch of the
   parameter vector, with widths that are numbers or functions of the parameters in that stretch.  The logarithm of the
   probability is the sum of the terms; samples and expected data are the terms side by side, in order. *)
EXTENDS LnTab, FiniteSets, TLC, Json
CONSTANTS Emit
VARIABLES terms, par
vars == <<terms, par>>
Pars == {<<0, 0, 0, 0, 0>>, <<1, -2, 3, 0, 2>>, <<2, 1, -1, 4, -3>>}
\* a stretch: first parameter, number of parameters; f: width is a function of the parameters
Normals == [kind : {"normal"}, at : {<<2, 2>>, <<3, 1>>, <<1, 3>>}, loc : {0, 1}, w : {1, 3}, r : {0}, f : BOOLEAN]
Corrs == [kind : {"mvn"}, at : {<<2, 2>>, <<4, 2>>}, loc : {0, 2}, w : {1, 2}, r : {0, 1, -1}, f : BOOLEAN]
Two == {<<a, b>> : a \in {x \in Normals : x.loc = 1 /\ x.w = 3}, b \in {x \in Corrs : x.loc = 2 /\ x.r = 1}} \cup {<<a, b>> : a \in {x \in Corrs : x.w = 2 /\ x.loc = 0}, b \in {x \in Normals : x.w = 1 /\ x.at[2] = 1}}
Init == par \in Pars /\ terms \in ({<<a>> : a \in Normals \cup Corrs} \cup Two)
Next == UNCHANGED vars
X(t, i) == par[t.at[1] + i - 1]
Mean(t, i) == t.loc * i
\* factor of the width: one more than the magnitude of the first parameter of the stretch (per parameter for the normal terms)
Fac(t, i) == IF ~t.f THEN 1 ELSE 1 + AbsV(X(t, IF t.kind = "normal" THEN i ELSE 1))
Width(t, i) == t.w * Fac(t, i)
\* covariance of a correlated term: w^2 (2, r; r, 1) times the factor squared
Cov(t, i, j) == LET s == Width(t, 1) * Width(t, 1) IN IF i # j THEN s * t.r ELSE IF i = 1 THEN 2 * s ELSE s
Z(t, i) == X(t, i) - Mean(t, i)
RECURSIVE SumTo(_, _)
SumTo(f, k) == IF k = 0 THEN 0 ELSE f[k] + SumTo(f, k - 1)
LnNormal(t) == SumTo([i \in 1..t.at[2] |-> -RMicro(Rat(Z(t, i) * Z(t, i), 2 * Width(t, i) * Width(t, i))) - LnIntTab[Width(t, i)] - Ln2Pi \div 2], t.at[2])
DetC(t) == 2 - t.r * t.r                                                   \* in units of Width^4
LnCorr(t) == LET q == Z(t, 1) * Z(t, 1) - 2 * t.r * Z(t, 1) * Z(t, 2) + 2 * Z(t, 2) * Z(t, 2) IN
   -RMicro(Rat(q, 2 * DetC(t) * Width(t, 1) * Width(t, 1))) - Ln2Pi - (LnIntTab[DetC(t)] + 4 * LnIntTab[Width(t, 1)]) \div 2
LnTerm(t) == IF t.kind = "normal" THEN LnNormal(t) ELSE LnCorr(t)
Total == SumTo([k \in 1..Len(terms) |-> LnTerm(terms[k])], Len(terms))
RECURSIVE Cat(_, _)
Cat(f, k) == IF k = 0 THEN <<>> ELSE Cat(f, k - 1) \o f[k]
Means == Cat([k \in 1..Len(terms) |-> [i \in 1..terms[k].at[2] |-> Mean(terms[k], i)]], Len(terms))
Vars == Cat([k \in 1..Len(terms) |-> [i \in 1..terms[k].at[2] |-> IF terms[k].kind = "normal" THEN Width(terms[k], i) * Width(terms[k], i) ELSE Cov(terms[k], i, i)]], Len(terms))
\* a term without correlation is the same as normal terms of the same widths; the peak of a term is at its mean
Uncorrelated == \A k \in 1..Len(terms) : LET t == terms[k] IN (t.kind = "mvn" /\ t.r = 0) =>
   AbsV(LnTerm(t) - (-RMicro(Rat(Z(t, 1) * Z(t, 1), 4 * t.w * t.w * Fac(t, 1) * Fac(t, 1))) - RMicro(Rat(Z(t, 2) * Z(t, 2), 2 * t.w * t.w * Fac(t, 1) * Fac(t, 1))) - LnIntTab[2] \div 2 - 2 * LnIntTab[Width(t, 1)] - Ln2Pi)) <= 5
Peak == \A k \in 1..Len(terms) : LET t == terms[k] IN ~t.f =>
   LnTerm(t) <= (IF t.kind = "normal" THEN -t.at[2] * (LnIntTab[t.w] + Ln2Pi \div 2) ELSE -Ln2Pi - (LnIntTab[DetC(t)] + 4 * LnIntTab[t.w]) \div 2) + 5
Out == Emit => PrintT("@" \o ToJson([terms |-> terms, par |-> par, total |-> Total, means |-> Means, vars |-> Vars,
   cov |-> [k \in 1..Len(terms) |-> IF terms[k].kind = "mvn" THEN Cov(terms[k], 1, 2) ELSE 0]]))
====
