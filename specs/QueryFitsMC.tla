---- MODULE QueryFitsMC ----
(* All requests: query, statistic, expectation type, minimiser, which of start, bounds, options and constraint are given.  The
   design fits one after another; leaving out what the caller gave in any of them is excluded by the invariant. *)
EXTENDS QueryFits, TLC, Json
CONSTANTS Emit, Expects, Minis
VARIABLES r, done
vars == <<r, done>>
Given == [start : BOOLEAN, bounds : BOOLEAN, opts : BOOLEAN, cons : BOOLEAN]
Init == /\ r \in [q : Queries, ts : Stats, ex : Expects, mini : Minis, g : Given]
        /\ (r.q \notin HasStat => r.ts = "qtilde") /\ (r.mini = "minuit" => ~r.g.cons)
        /\ done = {}
Next == \E k \in May(r.q, r.ts) : done' = done \cup {[at |-> k, g |-> r.g]} /\ UNCHANGED r
Spec == Init /\ [][Next]_vars
Faithful == \A f \in done : f.g = r.g /\ f.at \in May(r.q, r.ts)
Data == r.q = "asimov-data" => \A f \in done : f.at \in {"zero", "one"}
EmitOut == (Emit /\ done = {}) => PrintT("@" \o ToJson(r))
====
