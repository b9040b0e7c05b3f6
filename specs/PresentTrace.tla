---- MODULE PresentTrace ----
(* Answers of two presentations of one experiment: strengths scale by 1/k, everything else is the same.  All numbers in
   micro units; e.base are the answers of the original presentation, e.got those of the rewritten one. *)
EXTENDS Fix, TLC, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES t, l
\* a strength of the rewritten presentation in the original unit
Orig(e, x) == IF Finite(x) THEN (x \div e.k[2]) * e.k[1] + ((x % e.k[2]) * e.k[1]) \div e.k[2] ELSE x
Rel(x, parts, floor) == IF Finite(x) THEN floor + AbsV(x) \div parts ELSE 0
Close(a, b, parts, floor) == Near(a, b, Rel(a, parts, floor))
Names(s) == {s[i][1] : i \in 1..Len(s)}
\* number of elementary facts compared: pairs <<name, value>>
Pair(e, i) == <<e.base[i], e.got[i]>>
Kind(n) == n.kind
OkAt(e, i) ==
  LET b == e.base[i] g == e.got[i] IN
  CASE b.kind = "strength" -> Close(b.v, Orig(e, g.v), 200, b.tol)
    [] b.kind = "plain" -> Close(b.v, g.v, 100, 4000)
    [] b.kind = "level" -> Close(b.v, g.v, 100, 4000)
    [] b.kind = "shape" -> Len(b.v) = Len(g.v) /\ \A j \in 1..Len(b.v) : Close(b.v[j], g.v[j], 200, 20000)
Broken(e) == {i \in 1..Len(e.base) : ~OkAt(e, i)}
Init == t \in 1..Len(Traces) /\ l = 1
Next == /\ l = 1
        /\ LET e == Traces[t] B == Broken(e) IN
           IF Len(e.base) = Len(e.got) /\ (\A i \in 1..Len(e.base) : e.base[i].name = e.got[i].name) /\ B = {} THEN PrintT(<<"ACCEPT", t>>)
           ELSE PrintT(<<"REJECT", t, l, (IF Len(e.base) # Len(e.got) THEN "missing" ELSE e.base[CHOOSE i \in B : \A j \in B : i <= j].name) \o " " \o e.about>>)
        /\ l' = 2 /\ t' = t
====
