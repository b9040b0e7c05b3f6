---- MODULE Spread ----
(* Correlations and covariances.  Correlations are K-ths, standard deviations integers; everything below is exact in units of
   1/K.  Converting there and back gives what one started with, rescaling a quantity leaves correlations as they are, and the
   covariance of a sum is what the covariance of the parts adds up to. *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS N, K, Sig, Emit
VARIABLES c
Idx == 1..N
Pairs == {p \in Idx \X Idx : p[1] < p[2]}
Rho(r, i, j) == IF i = j THEN K ELSE IF i < j THEN r[<<i, j>>] ELSE r[<<j, i>>]
Cov(x) == [i \in Idx |-> [j \in Idx |-> x.s[i] * Rho(x.r, i, j) * x.s[j]]]
Cor(x) == [i \in Idx |-> [j \in Idx |-> Rho(x.r, i, j)]]
Init == c \in [s : [Idx -> Sig], r : [Pairs -> -K..K]]
Next == UNCHANGED c
Symmetric == \A i, j \in Idx : Cov(c)[i][j] = Cov(c)[j][i]
Variances == \A i \in Idx : Cov(c)[i][i] = K * c.s[i] * c.s[i]
\* the correlation is the covariance over the spreads, without remainder
Back == \A i, j \in Idx : Cov(c)[i][j] = Cor(c)[i][j] * c.s[i] * c.s[j] /\ Cov(c)[i][j] * Cov(c)[i][j] <= Cov(c)[i][i] * Cov(c)[j][j]
\* one quantity in other units
Units == \A k \in Idx : LET d == [c EXCEPT !.s[k] = 3 * @] IN Cor(d) = Cor(c) /\ \A i, j \in Idx : Cov(d)[i][j] = Cov(c)[i][j] * (IF i = k THEN 3 ELSE 1) * (IF j = k THEN 3 ELSE 1)
EmitOut == Emit => PrintT("@" \o ToJson([s |-> c.s, cor |-> Cor(c), cov |-> Cov(c)]))
====
