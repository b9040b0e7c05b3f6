---- MODULE QuadFit ----
(* Exact box-constrained least squares for the exactly solvable statistical models:
     lambda_i(x) = c_i + sum_j A[i][j] x_j        nll(x; d) = sum_i (d_i - lambda_i(x))^2 / 2
   Data and pinned values are rationals over one common denominator.  A point is [num, den]: x_j = num[j] / den. *)
EXTENDS Fix, FiniteSets
RECURSIVE Det(_)
Minor(m, c) == [r \in 1..(Len(m) - 1) |-> [k \in 1..(Len(m) - 1) |-> m[r + 1][IF k < c THEN k ELSE k + 1]]]
RECURSIVE DetSum(_, _)
DetSum(m, c) == IF c > Len(m) THEN 0 ELSE (IF c % 2 = 1 THEN 1 ELSE -1) * m[1][c] * Det(Minor(m, c)) + DetSum(m, c + 1)
Det(m) == IF Len(m) = 0 THEN 1 ELSE IF Len(m) = 1 THEN m[1][1] ELSE DetSum(m, 1)
RECURSIVE SumTo(_, _)
SumTo(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumTo(f, n - 1)
Dot(u, v) == SumTo([k \in 1..Len(u) |-> u[k] * v[k]], Len(u))
NPar(m) == Len(m.A[1])
NRow(m) == Len(m.c)
Col(m, j) == [i \in 1..NRow(m) |-> m.A[i][j]]
Hess(m) == [j \in 1..NPar(m) |-> [k \in 1..NPar(m) |-> Dot(Col(m, j), Col(m, k))]]
\* gradient at zero times -den for data num over den
Grad0(m, dn, den) == [j \in 1..NPar(m) |-> SumTo([i \in 1..NRow(m) |-> m.A[i][j] * (dn[i] - den * m.c[i])], NRow(m))]
\* indices of a set in increasing order
RECURSIVE Asc(_)
Asc(s) == IF s = {} THEN <<>> ELSE LET x == CHOOSE x \in s : \A y \in s : x <= y IN <<x>> \o Asc(s \ {x})
(* Solve with the parameters in DOMAIN pin held at pin[j] / den; data numerators dn over den. *)
SolvePinned(m, dn, den, pin) ==
  LET n == NPar(m) H == Hess(m) g == Grad0(m, dn, den)
      F == Asc({j \in 1..n : j \notin DOMAIN pin}) P == Asc(DOMAIN pin)
      rhs == [a \in 1..Len(F) |-> g[F[a]] - SumTo([b \in 1..Len(P) |-> H[F[a]][P[b]] * pin[P[b]]], Len(P))]
      M == [a \in 1..Len(F) |-> [b \in 1..Len(F) |-> H[F[a]][F[b]]]]
      D == Det(M)
      X(a) == Det([r \in 1..Len(F) |-> [k \in 1..Len(F) |-> IF k = a THEN rhs[r] ELSE M[r][k]]])
      pos(j) == CHOOSE a \in 1..Len(F) : F[a] = j
  IN [den |-> den * D, num |-> [j \in 1..n |-> IF j \in DOMAIN pin THEN pin[j] * D ELSE X(pos(j))]]
\* slope of the nll at a point, numerator over p.den (den divides p.den)
Slope(m, dn, den, p, j) ==
  Dot(Hess(m)[j], p.num) - Grad0(m, dn, den)[j] * (p.den \div den)
(* Box-constrained minimum: bounds b[j] = <<lo, hi>> integers; `fix` maps fixed parameters to numerators over den. *)
Feasible(m, b, p, free) == \A j \in free : p.num[j] >= b[j][1] * p.den /\ p.num[j] <= b[j][2] * p.den
KKT(m, dn, den, b, p, free) ==
  \A j \in free : LET s == Slope(m, dn, den, p, j) IN
     \/ s = 0
     \/ s > 0 /\ p.num[j] = b[j][1] * p.den
     \/ s < 0 /\ p.num[j] = b[j][2] * p.den
BoxFit(m, dn, den, b, fix) ==
  LET free == (1..NPar(m)) \ DOMAIN fix
      Pt(pat) == SolvePinned(m, dn, den, [j \in DOMAIN fix \cup {k \in free : pat[k] # 0} |-> IF j \in DOMAIN fix THEN fix[j] ELSE den * b[j][pat[j]]])
      good == {pat \in [free -> 0..2] : LET p == Pt(pat) IN Feasible(m, b, p, free) /\ KKT(m, dn, den, b, p, free)}
  IN Pt(CHOOSE pat \in good : TRUE)
\* expected counts at a point, numerators over p.den
Lambda(m, p) == [i \in 1..NRow(m) |-> m.c[i] * p.den + Dot(m.A[i], p.num)]
\* negative log-likelihood in micro units
NllAt(m, dn, den, p) ==
  SumTo([i \in 1..NRow(m) |-> SqM(RMicro(Rat(dn[i] * (p.den \div den) - Lambda(m, p)[i], p.den)))], NRow(m)) \div 2
Pars(p) == [j \in 1..Len(p.num) |-> RMicro(Rat(p.num[j], p.den))]
====
