---- MODULE TestStatMC ----
(* Every combination of a parabolic likelihood (curvature kap, offset base, reported minimum off by lie),
   tested value and statistic; checks the definition's own consequences and emits each case with the
   value the definition gives, to be replayed into the implementation. *)
EXTENDS TestStat, TLC, Json
CONSTANTS Emit
Mus == {-1500000, 0, 500000, 1000000, 2250000}
Hats == {-2000000, -1500000, -250000, 0, 500000, 1000000, 2250000, 3000000}
Kaps == {1, 3}
Bases == {0, 40000000}
Lies == {-500000, 0, 300000}
Names == {"q", "qmu", "qtilde", "qmutilde", "qmu_left", "q0"}
VARIABLES name, mu, hat, kap, base, lie, hatA, kapA
vars == <<name, mu, hat, kap, base, lie, hatA, kapA>>
Nll(x, m, k, b) == b + (k * SqM(x - m)) \div 2
nhat == base + lie
nmu == Nll(mu, hat, kap, base)
n0 == Nll(0, hat, kap, base)
q == Stat(name, mu, hat, nmu, nhat, n0)
\* Asimov side: exact minimum
nhatA == 0
nmuA == Nll(mu, hatA, kapA, 0)
n0A == Nll(0, hatA, kapA, 0)
qA == Stat(name, mu, hatA, nmuA, nhatA, n0A)
Init == /\ name \in Names /\ mu \in Mus /\ hat \in Hats /\ kap \in Kaps /\ base \in Bases /\ lie \in Lies
        /\ hatA \in {0, 500000} /\ kapA \in {0, 2, 5}
        /\ (lie # 0 => kapA = 2) /\ (base # 0 => hatA = 0)
\* consequences of the definition
NonNegative == q >= 0 /\ qA >= 0
OneSided == /\ (name \in {"q", "qmu", "qtilde", "qmutilde"} /\ hat > mu) => q = 0
            /\ (name = "q0" /\ hat < 0) => q = 0
            /\ (name = "qmu_left" /\ hat < mu) => q = 0
\* with the true minimum, q~ never exceeds q, both vanish only at or above the tested value
TrueMin == lie = 0 =>
   /\ QTilde(mu, hat, nmu, nhat, n0) <= QMu(mu, hat, nmu, nhat)
   /\ (name \in {"q", "qmu"} /\ hat < mu) => q > 0
   /\ (name \in {"qtilde", "qmutilde"} /\ hat < mu /\ mu > 0) => q > 0
   /\ (name = "q0" /\ hat > 0) => q > 0
\* the shift grows with the observed statistic and vanishes when both statistics agree
Shift == (name # "qmu_left" /\ ~Undefined(name, SqrtM(q), SqrtM(qA))) =>
   LET d == Delta(name, q, qA) IN
   /\ (q > qA => d >= 0) /\ (q < qA => d <= 0) /\ (q = qA => d = 0)
Out == Emit => PrintT("@" \o ToJson([name |-> name, mu |-> mu, hat |-> hat, kap |-> kap, base |-> base, lie |-> lie,
          hatA |-> hatA, kapA |-> kapA, q |-> q, qA |-> qA,
          delta |-> IF name = "qmu_left" THEN NaN
                    ELSE IF Undefined(name, SqrtM(q), SqrtM(qA)) THEN Inf ELSE Delta(name, q, qA)]))
Next == UNCHANGED vars
====
