---- MODULE MergeBins ----
(* Merging groups of correlated bins.  A request is a sequence of groups (sequences of bin numbers, from 0).  The result lists the
   groups in the given order followed by the remaining bins in ascending order; yields are sums, covariances are sums over pairs. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
RECURSIVE Flat(_)
Flat(gs) == IF gs = <<>> THEN <<>> ELSE Head(gs) \o Flat(Tail(gs))
Range(s) == {s[i] : i \in 1..Len(s)}
Admissible(n, gs) == LET f == Flat(gs) IN Cardinality(Range(f)) = Len(f) /\ Range(f) \subseteq 0..n - 1
RECURSIVE Ascending(_)
Ascending(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o Ascending(S \ {m})
Full(n, gs) == gs \o LET rest == Ascending((0..n - 1) \ Range(Flat(gs))) IN [i \in 1..Len(rest) |-> <<rest[i]>>]
RECURSIVE SumOver(_, _)
SumOver(v, g) == IF g = <<>> THEN 0 ELSE v[Head(g) + 1] + SumOver(v, Tail(g))
Yields(v, fg) == [i \in 1..Len(fg) |-> SumOver(v, fg[i])]
RECURSIVE SumRows(_, _, _)
SumRows(m, g, h) == IF g = <<>> THEN 0 ELSE SumOver(m[Head(g) + 1], h) + SumRows(m, Tail(g), h)
Cov(m, fg) == [i \in 1..Len(fg) |-> [j \in 1..Len(fg) |-> SumRows(m, fg[i], fg[j])]]
====
