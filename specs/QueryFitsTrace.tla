---- MODULE QueryFitsTrace ----
(* Verdict on the fits recorded behind one query: r as in QueryFitsMC, want = [start, bounds, opts] (text, "" where not given),
   fits = sequence of [at, start, bounds, opts, cons]; for parameters which are held the start is masked on both sides. *)
EXTENDS QueryFits, TLC, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tr, done
SetOf(s) == {s[i] : i \in 1..Len(s)}
FitV(e, f) ==
  IF f.at \notin May(e.r.q, e.r.ts) THEN "a fit with the signal strength held elsewhere"
  ELSE IF e.r.g.start /\ \E j \in 1..Len(f.start) : ~f.held[j] /\ f.start[j] # e.want.start[j] THEN "starting point"
  ELSE IF e.r.g.bounds /\ f.bounds # e.want.bounds THEN "bounds"
  ELSE IF e.r.g.opts /\ SetOf(f.opts) # SetOf(e.want.opts) THEN "options"
  ELSE IF e.r.g.cons /\ ~f.cons THEN "constraint of the caller"
  ELSE IF f.lost THEN "constraint of the model" ELSE "ok"
V(e) ==
  IF e.error # "" THEN "error"
  ELSE LET bad == {i \in 1..Len(e.fits) : FitV(e, e.fits[i]) # "ok"} IN
  IF bad # {} THEN FitV(e, e.fits[CHOOSE i \in bad : \A k \in bad : i <= k])
  ELSE IF ~(Must(e.r.q, e.r.ts) \subseteq {f.at : f \in SetOf(e.fits)}) THEN "a fit is missing" ELSE "ok"
Init == tr \in 1..Len(Traces) /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED tr
        /\ LET e == Traces[tr] v == V(e) IN IF v = "ok" THEN PrintT(<<"ACCEPT", tr>>) ELSE PrintT(<<"REJECT", tr, 1, v>>)
====
