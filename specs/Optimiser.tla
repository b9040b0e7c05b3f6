---- MODULE Optimiser ----
(* Which minimiser a fit uses: selection made programmatically or by the environment, and per-call choices. *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Depth, Queries, Emit
VARIABLES sel, inst, hist      \* sel: value of the selection ("unset" if never made); inst: minuit is installed
vars == <<sel, inst, hist>>
Known == {"scipy", "minuit"}
Lower(s) == IF s = "MINUIT" THEN "minuit" ELSE IF s = "Scipy" THEN "scipy" ELSE s
\* the minimiser a fit uses, given the choice made in the call ("none": no choice)
Choice(c) == LET w == IF c # "none" THEN c ELSE IF sel = "unset" THEN "scipy" ELSE Lower(sel)
             IN IF w = "minuit" /\ inst THEN "minuit" ELSE "scipy"
SetTo(n) == IF n \in {"minuit", "iminuit"} THEN (IF inst THEN "minuit" ELSE sel) ELSE IF n = "scipy" THEN "scipy" ELSE sel
Ops == [op : {"set"}, v : {"minuit", "iminuit", "scipy", "bogus", ""}] \cup [op : {"env"}, v : {"minuit", "MINUIT", "scipy", "Scipy", "bogus", "unset"}]
       \cup [op : {"installed"}, v : {"yes", "no"}] \cup [op : {"fit"}, v : {"none", "scipy", "minuit", "bogus"}, q : Queries]
Init == sel \in {"unset", "minuit", "scipy"} /\ inst = TRUE /\ hist = <<[op |-> "env", v |-> sel, used |-> "", sel |-> sel]>>
Do(o) == /\ Len(hist) <= Depth
         /\ sel' = CASE o.op = "set" -> SetTo(o.v) [] o.op = "env" -> o.v [] OTHER -> sel
         /\ inst' = IF o.op = "installed" THEN o.v = "yes" ELSE inst
         /\ hist' = Append(hist, o @@ [used |-> IF o.op = "fit" THEN Choice(o.v) ELSE "", sel |-> sel'])
Next == \E o \in Ops : Do(o)
Last == hist[Len(hist)]
\* a per-call choice leaves the selection alone, failed selections too
CallOnly == [][\A o \in Ops : (Do(o) /\ o.op \in {"fit", "installed"}) => sel' = sel]_vars
BadSet == [][\A v \in {"bogus", ""} : Do([op |-> "set", v |-> v]) => sel' = sel]_vars
UsedKnown == Last.op = "fit" => Last.used \in Known
Honoured == (Last.op = "fit" /\ Last.v = "minuit" /\ inst) => Last.used = "minuit"
Default == (Last.op = "fit" /\ Last.v = "none" /\ sel \in {"unset", "bogus", "scipy", "Scipy"}) => Last.used = "scipy"
EmitOut == (Emit /\ Len(hist) = Depth + 1 /\ Last.op = "fit") => PrintT("@" \o ToJson(hist))
====
