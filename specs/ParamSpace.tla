---- MODULE ParamSpace ----
(* Parameter space of a model and the edits a fit makes to it.  A configuration is
   [poi, min, init, bounds, names, named, fixed]: parameter number of the signal strength (from 1), its physical minimum,
   one (lower, upper) pair and one name per parameter.  Numbers are scaled integers; None and -infinity are marked. *)
EXTENDS Integers, Sequences, FiniteSets
None == 1999999999
NInf == -1999999999
Par(c) == 1..Len(c.bounds)
Below(a, b) == IF a = None \/ b = None THEN TRUE ELSE a < b          \* None is no restriction
AtMost(a, b) == IF a = None \/ b = None THEN TRUE ELSE a <= b
Ordered(pr) == AtMost(pr[1], pr[2])
Holds(pr, v) == AtMost(pr[1], v) /\ AtMost(v, pr[2])
Inside(pr, v) == Below(pr[1], v) /\ Below(v, pr[2])
\* fixed: set of <<parameter, value>>
Fixed(fx) == {p[1] : p \in fx}
ValueOf(fx, j) == (CHOOSE p \in fx : p[1] = j)[2]
\* which clause a proposed list of bounds violates for the given fixed values
FixClause(c, fx, out) ==
  IF Len(out) # Len(c.bounds) THEN "number of bounds"
  ELSE IF \E j \in Par(c) \ Fixed(fx) : out[j] # c.bounds[j] THEN "bounds of a free parameter changed"
  ELSE IF \E j \in Fixed(fx) : ~Ordered(out[j]) THEN "lower bound above upper bound"
  ELSE IF \E j \in Fixed(fx) : ~Holds(out[j], ValueOf(fx, j)) /\ ~(j = c.poi /\ ValueOf(fx, j) < c.min) THEN "fixed value outside its bounds"
  ELSE IF \E j \in Fixed(fx) : \E s \in {1, 2} : (c.bounds[j][s] = None) # (out[j][s] = None) THEN "an open side closed or a closed one opened"
  ELSE IF \E j \in Fixed(fx) : Inside(c.bounds[j], ValueOf(fx, j)) /\ out[j] # c.bounds[j] THEN "bounds that contain the value changed"
  ELSE "ok"
\* rescaled domain of the signal strength; ub = None: keep the suggested upper bound
Rescaled(c, neg, ub) == [j \in Par(c) |-> IF j = c.poi THEN <<IF neg THEN c.min ELSE 0, IF ub = None THEN c.bounds[j][2] ELSE ub>> ELSE c.bounds[j]]
\* renaming: sequence of pairs <<old, new>> with distinct old names, one simultaneous substitution
Names(c) == IF c.named THEN {c.names[j] : j \in 1..Len(c.names)} ELSE {}
NewName(mp, n) == IF \E i \in 1..Len(mp) : mp[i][1] = n THEN (CHOOSE p \in {mp[i] : i \in 1..Len(mp)} : p[1] = n)[2] ELSE n
RenameOK(c, mp) == /\ \A i \in 1..Len(mp) : mp[i][1] \in Names(c)
                   /\ Cardinality({NewName(mp, n) : n \in Names(c)}) = Cardinality(Names(c))
Renamed(c, mp) == IF RenameOK(c, mp) /\ c.named THEN [c EXCEPT !.names = [j \in 1..Len(@) |-> NewName(mp, @[j])]] ELSE c
\* resolving: keys [k |-> "name" or "index", n |-> name, i |-> parameter]; the same parameter by either key
KeyOK(c, k) == k.k = "index" \/ k.n \in Names(c)
KeyPar(c, k) == IF k.k = "index" THEN k.i ELSE CHOOSE j \in 1..Len(c.names) : c.names[j] = k.n
ResolveOK(c, ks) == \A i \in 1..Len(ks) : KeyOK(c, ks[i])
Resolved(c, ks, vs) == {<<KeyPar(c, ks[i]), vs[i]>> : i \in 1..Len(ks)}
====
