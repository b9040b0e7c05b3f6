---- MODULE ParamSpaceTrace ----
(* Verdict on recorded edits of real configurations.  trace = [c, ev]; every event carries what was returned (out, err)
   and the configuration after it (bounds, names, untouched = the other fields are as before). *)
EXTENDS ParamSpace, TLC, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tr, l, c
SetOf(s) == {s[i] : i \in 1..Len(s)}
Returned(e) ==
  CASE e.op = "fix" -> IF e.err # "" THEN "refused" ELSE FixClause(c, SetOf(e.fx), e.out)
    [] e.op = "rescale" -> IF e.err # "" THEN "refused" ELSE IF e.out # Rescaled(c, e.neg, e.ub) THEN "rescaled bounds" ELSE "ok"
    [] e.op = "rename" -> IF (e.err = "") # RenameOK(c, e.mp) THEN (IF e.err = "" THEN "impossible renaming accepted" ELSE "renaming refused") ELSE "ok"
    [] e.op = "resolve" -> IF (e.err = "") # ResolveOK(c, e.ks) THEN (IF e.err = "" THEN "unknown name accepted" ELSE "known parameter refused")
                           ELSE IF e.err = "" /\ SetOf(e.out) # Resolved(c, e.ks, e.vs) THEN "resolved parameters" ELSE "ok"
After(e) == IF e.op = "rename" /\ e.err = "" THEN Renamed(c, e.mp) ELSE c
Clause(e) == LET r == Returned(e) IN
  IF r # "ok" THEN e.op \o ": " \o r
  ELSE IF ~e.same \/ e.bounds # c.bounds THEN e.op \o ": the configuration itself changed"
  ELSE IF e.names # After(e).names THEN e.op \o ": parameter names afterwards"
  ELSE "ok"
Init == tr \in 1..Len(Traces) /\ l = 1 /\ c = Traces[tr].c
Next == /\ l <= Len(Traces[tr].ev) /\ UNCHANGED tr
        /\ LET e == Traces[tr].ev[l] v == Clause(e) IN
             IF v # "ok" THEN l' = 1000000 /\ c' = c /\ PrintT(<<"REJECT", tr, l, v>>)
             ELSE l' = l + 1 /\ c' = After(e) /\ (l = Len(Traces[tr].ev) => PrintT(<<"ACCEPT", tr>>))
====
