---- MODULE ParamSpaceMC ----
(* All small parameter layouts and sequences of edits of one configuration (renamings change it, the others derive). *)
EXTENDS ParamSpace, TLC, Json
CONSTANTS Pairs, Mins, Vals, Uppers, NPars, Depth, Emit, SingleFix
VARIABLES c, hist, c0
vars == <<c, hist, c0>>
NM(p) == IF p = 1 THEN <<"mu_a", "mu", "a">> ELSE <<"mu", "mu_a", "a">>   \* names that contain one another, in either order
NewNames == {"mu", "mu_a", "a", "z"}
Layouts == UNION {{[poi |-> p, min |-> mn, bounds |-> bs, named |-> nm, names |-> IF nm THEN [j \in 1..n |-> NM(p)[j]] ELSE <<>>] :
                   p \in 1..n, mn \in Mins, bs \in [1..n -> Pairs], nm \in IF n = 1 THEN {TRUE} ELSE {TRUE, FALSE}} : n \in NPars}
FixOps(k) == {[op |-> "fix", fx |-> fx] : fx \in UNION {{ {<<j, f[j]>> : j \in S} : f \in [S -> Vals]} : S \in IF SingleFix THEN {{j} : j \in Par(k)} ELSE SUBSET Par(k)}}
ScaleOps == {[op |-> "rescale", neg |-> n, ub |-> u] : n \in BOOLEAN, u \in Uppers}
Maps == {<<>>} \cup {<<<<o, w>>>> : o \in NewNames, w \in NewNames} \cup
        {<<<<o1, w1>>, <<o2, w2>>>> : o1 \in {"mu", "mu_a", "a"}, w1 \in NewNames, o2 \in {"a", "z"}, w2 \in NewNames}
RenameOps == {[op |-> "rename", mp |-> m] : m \in {x \in Maps : Len(x) < 2 \/ x[1][1] # x[2][1]}}
Keys(k) == [k : {"name"}, n : NewNames, i : {0}] \cup [k : {"index"}, n : {""}, i : Par(k)]
ResolveOps(k) == {[op |-> "resolve", ks |-> <<a>>, vs |-> <<1>>] : a \in Keys(k)} \cup
                 {[op |-> "resolve", ks |-> <<a, b>>, vs |-> <<1, 7>>] : a \in Keys(k), b \in Keys(k)}
Distinct(k, o) == IF o.op # "resolve" THEN TRUE ELSE ResolveOK(k, o.ks) => \A i, j \in 1..Len(o.ks) : i # j => KeyPar(k, o.ks[i]) # KeyPar(k, o.ks[j])
Ops(k) == FixOps(k) \cup ScaleOps \cup RenameOps \cup ResolveOps(k)
Init == c \in Layouts /\ hist = <<>> /\ c0 = c
Do(o) == /\ Len(hist) < Depth /\ Distinct(c, o)
         /\ hist' = Append(hist, o) /\ UNCHANGED c0
         /\ c' = IF o.op = "rename" THEN Renamed(c, o.mp) ELSE c
Next == \E o \in Ops(c) : Do(o)
OneName == c.named => Cardinality(Names(c)) = Len(c.bounds)                     \* names stay one per parameter and unique
SameSpace == c.bounds = c0.bounds /\ c.min = c0.min /\ c.poi = c0.poi
\* the required bounds can always be met: widening to contain the value does it
Widen(pr, v) == <<IF pr[1] = None THEN None ELSE IF pr[1] < v THEN pr[1] ELSE v - 1, IF pr[2] = None THEN None ELSE IF pr[2] > v THEN pr[2] ELSE v + 1>>
Feasible == \A o \in FixOps(c) : FixClause(c, o.fx, [j \in Par(c) |-> IF j \in Fixed(o.fx) THEN Widen(c.bounds[j], ValueOf(o.fx, j)) ELSE c.bounds[j]]) = "ok"
EmitOut == (Emit /\ Len(hist) = Depth) => PrintT("@" \o ToJson([c |-> c0, h |-> hist]))
\* one line per layout with every single edit it allows
EmitAll == (Emit /\ hist = <<>>) => PrintT("@" \o ToJson([c |-> c0, ops |-> {o \in Ops(c0) : Distinct(c0, o)}]))
====
