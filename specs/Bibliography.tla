---- MODULE Bibliography ----
(* Citation records of a backend: for each declared reference, in order, the records that are requested, from where, and what
   is returned, given the outcome of every request.  Requests stop at the first unreachable network. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Emit, Outcomes, MaxRefs
VARIABLES refs, todo, reqs, out, answers, done
vars == <<refs, todo, reqs, out, answers, done>>
Kinds == <<"arXiv", "doi", "zenodo">>
Down == {"conn", "timeout", "readtimeout"}
Home(kind) == CASE kind = "arXiv" -> "inspire/arxiv" [] kind = "doi" -> "inspire/doi" [] kind = "zenodo" -> "zenodo" [] kind = "doi2" -> "doi"
Bag(kind) == IF kind = "zenodo" THEN "zenodo" ELSE IF kind = "doi2" THEN "doi.org" ELSE "inspire"
Seqs == [arXiv : 0..2, doi : 0..2, zenodo : 0..2]
Flat(r) == [i \in 1..r.arXiv |-> <<"arXiv", i>>] \o [i \in 1..r.doi |-> <<"doi", i>>] \o [i \in 1..r.zenodo |-> <<"zenodo", i>>]
Init == /\ refs \in {r \in Seqs : r.arXiv + r.doi + r.zenodo <= MaxRefs}
        /\ todo = Flat(refs) /\ reqs = <<>> /\ answers = <<>> /\ done = FALSE
        /\ out = [b \in {"inspire", "doi.org", "zenodo"} |-> <<>>]
(* one request for the reference at the head *)
Ask(o) == /\ ~done /\ todo # <<>>
          /\ LET h == Head(todo) IN
             /\ reqs' = Append(reqs, <<Home(h[1]), h[2]>>) /\ answers' = Append(answers, o)
             /\ IF o \in Down THEN todo' = <<>> /\ out' = out /\ done' = TRUE
                ELSE IF o = "ok" THEN todo' = Tail(todo) /\ out' = [out EXCEPT ![Bag(h[1])] = Append(@, <<Home(h[1]), h[2]>>)] /\ done' = FALSE
                ELSE /\ todo' = IF h[1] = "doi" THEN <<<<"doi2", h[2]>>>> \o Tail(todo) ELSE Tail(todo)
                     /\ out' = out /\ done' = FALSE
          /\ UNCHANGED refs
Finish == ~done /\ todo = <<>> /\ done' = TRUE /\ UNCHANGED <<refs, todo, reqs, out, answers>>
Next == Finish \/ \E o \in Outcomes : Ask(o)
Recs(b) == {out[b][i] : i \in 1..Len(out[b])}
\* no reference is listed twice, each from the source matching its kind
NoTwice == \A b \in DOMAIN out : Cardinality(Recs(b)) = Len(out[b])
Matching == /\ \A x \in Recs("zenodo") : x[1] = "zenodo" /\ \A y \in Recs("doi.org") : y[1] = "doi"
            /\ \A z \in Recs("inspire") : z[1] \in {"inspire/arxiv", "inspire/doi"}
\* a doi is listed from one source only
OneSource == \A i \in 1..2 : ~(<<"doi", i>> \in Recs("doi.org") /\ <<"inspire/doi", i>> \in Recs("inspire"))
\* when every answer is fine each declared reference has its record
Complete == (done /\ \A i \in 1..Len(answers) : answers[i] = "ok") => Len(out["inspire"]) = refs.arXiv + refs.doi /\ Len(out["zenodo"]) = refs.zenodo
EmitOut == (Emit /\ done) => PrintT("@" \o ToJson([refs |-> refs, answers |-> answers, reqs |-> reqs, out |-> out]))
====
