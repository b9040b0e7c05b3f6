---- MODULE StatModel ----
(* A statistical model as a pure object.  Its state (recorded data, background-only prediction, configuration) never changes;
   every query is a function of that state and of the query's own arguments.  Answer(m, q) is that function.
   Model: [A, c, n, ap, poi, bounds, minpoi, fixed (set of parameters the model itself holds at zero)].
   Query: op, ds (which dataset: "obs", "ap", or an explicit sequence), fix (function parameter -> halves), neg, bnd
   (bounds given by the caller, or <<>>), stat. *)
EXTENDS QuadFit, TLC, Json
CONSTANTS Models, Queries, Emit
VARIABLES m, q
vars == <<m, q>>
Dataset(mm, ds) == IF ds = "obs" THEN mm.n ELSE IF ds = "ap" THEN mm.ap ELSE mm.alt
Widen(b, v2) == IF 2 * b[1] < v2 /\ v2 < 2 * b[2] THEN b ELSE <<MinV(b[1], (v2 \div 2) - 1), MaxV(b[2], (v2 \div 2) + 1)>>
\* the domain: the caller's bounds if given, otherwise the model's, with the signal strength cut at zero on request
Domain_(mm, qq) ==
  IF qq.bnd THEN mm.bnd2
  ELSE [j \in 1..NPar(mm) |-> IF j = mm.poi /\ ~qq.neg THEN <<MaxV(0, mm.bounds[j][1]), mm.bounds[j][2]>> ELSE mm.bounds[j]]
SelfFixed(mm) == [j \in mm.fixed |-> 0]
Merge(f, g) == [j \in DOMAIN f \cup DOMAIN g |-> IF j \in DOMAIN f THEN f[j] ELSE g[j]]
Times(f, k) == [j \in DOMAIN f |-> f[j] * k]
\* data: numerators dn over den (even, so that halves are exact)
Fit(mm, qq, dn, den, fix2) == BoxFit(mm, dn, den, Domain_(mm, qq), Times(Merge(fix2, SelfFixed(mm)), den \div 2))
Scale(s, k) == [i \in 1..Len(s) |-> s[i] * k]
AsimovHyp(stat) == IF stat = "q0" THEN 2 ELSE 0
AsimovPoint(mm, qq) == Fit(mm, [qq EXCEPT !.neg = qq.stat \in {"q", "qmu"}], Scale(Dataset(mm, qq.ds), 2), 2, (mm.poi :> AsimovHyp(qq.stat)))
AsimovData(mm, qq) == LET p == AsimovPoint(mm, qq) IN [dn |-> Scale(Lambda(mm, p), 2), den |-> 2 * p.den]
Out(mm, p, dn, den) == [nll |-> NllAt(mm, dn, den, p), pars |-> Pars(p)]
Answer(mm, qq) ==
  CASE qq.op = "lik" -> LET dn == Scale(Dataset(mm, qq.ds), 2) IN Out(mm, Fit(mm, qq, dn, 2, qq.fix), dn, 2)
    [] qq.op = "max" -> LET dn == Scale(Dataset(mm, qq.ds), 2) IN Out(mm, Fit(mm, qq, dn, 2, qq.fix), dn, 2)
    [] qq.op = "asi" -> LET p == AsimovPoint(mm, qq) IN [data |-> [i \in 1..NRow(mm) |-> RMicro(Rat(Lambda(mm, p)[i], p.den))], pars |-> Pars(p)]
    [] qq.op = "asl" -> LET a == AsimovData(mm, qq) IN Out(mm, Fit(mm, qq, a.dn, a.den, qq.fix), a.dn, a.den)
    [] qq.op = "mxa" -> LET a == AsimovData(mm, qq) IN Out(mm, Fit(mm, [qq EXCEPT !.neg = qq.stat \in {"q", "qmu"}], a.dn, a.den, qq.fix), a.dn, a.den)
Init == m \in Models /\ q \in {x \in Queries : DOMAIN x.fix \subseteq 1..NPar(m)}
Next == UNCHANGED vars
\* ---- properties of the specification itself
DataOf(mm, qq) == IF qq.op \in {"asl", "mxa"} THEN AsimovData(mm, qq) ELSE [dn |-> Scale(Dataset(mm, qq.ds), 2), den |-> 2]
Box(mm, qq) == [1..NPar(mm) -> -2..2]
Inside(mm, qq, x) == \A j \in 1..NPar(mm) : IF j \in DOMAIN qq.fix THEN 2 * x[j] = qq.fix[j] ELSE IF j \in mm.fixed THEN x[j] = 0 ELSE x[j] >= Domain_(mm, qq)[j][1] /\ x[j] <= Domain_(mm, qq)[j][2]
\* no point of the grid satisfying the same restrictions beats the answer
Minimal == q.op \in {"lik", "max"} =>
  LET d == DataOf(m, q) a == Answer(m, q) IN
  \A x \in {y \in Box(m, q) : Inside(m, q, y)} : NllAt(m, d.dn, d.den, [den |-> d.den, num |-> Scale(x, d.den)]) >= a.nll - 20
Pinned == q.op \in {"lik", "max"} => \A j \in DOMAIN q.fix : Answer(m, q).pars[j] = RMicro(Rat(q.fix[j], 2))
EmitOut == IF Emit THEN PrintT("@" \o ToJson([m |-> m.id, q |-> [q EXCEPT !.fix = {<<j, q.fix[j]>> : j \in DOMAIN q.fix}], a |-> Answer(m, q)])) ELSE TRUE
====
