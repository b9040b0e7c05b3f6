---- MODULE WellsMC ----
(* Profiles with several minima: nll(x) = min over wells k of  w_k (x - m_k)^2 / 2 + d_k.  The confidence region
   { x : 2 (nll(x) - min nll) <= z^2 } is a union of intervals; its end points are computed exactly, and an answer is judged
   against them: every reported end point is one of them, on the side asked for, in order, and with a fine scan none is missing. *)
EXTENDS Fix, TLC, Json, FiniteSets
CONSTANTS Emit, Centres, Weights, Depths
VARIABLES a, b, cl
vars == <<a, b, cl>>
ZSq(c) == CASE c = 68 -> 988946 [] c = 90 -> 2705543 [] c = 95 -> 3841459 [] c = 99 -> 6634897
Well == [m : Centres, w : Weights, d : Depths]
Floor == MinV(a.d, b.d)
Best == IF a.d <= b.d THEN a.m ELSE b.m
\* half width of the part of a well below the level, -1 when the well stays above it
Half(k) == LET lev == ZSq(cl) - 2 * (k.d - Floor) IN IF lev <= 0 THEN -1 ELSE SqrtM(lev \div k.w)
In(k, x) == Half(k) >= 0 /\ AbsV(x - k.m) < Half(k) - 3
EndsOf(k) == IF Half(k) < 0 THEN {} ELSE {k.m - Half(k), k.m + Half(k)}
\* an end point of one well inside the other well's part is no end point of the union
Ends == {x \in EndsOf(a) : ~In(b, x)} \union {x \in EndsOf(b) : ~In(a, x)}
RECURSIVE Sorted(_)
Sorted(s) == IF s = {} THEN <<>> ELSE LET x == CHOOSE x \in s : \A y \in s : x <= y IN <<x>> \o Sorted(s \ {x})
Lev(k, x) == MulM(SqM(x - k.m), k.w * ONE) + 2 * (k.d - Floor)
Chi(x) == MinV(Lev(a, x), Lev(b, x))
\* margins: unique best well, no end point of one well touching the other's, no barely reached level
Clear == /\ a.d # b.d /\ a.m # b.m
         /\ \A k \in {a, b} : LET lev == ZSq(cl) - 2 * (k.d - Floor) IN AbsV(lev) > 100000
         /\ \A x \in EndsOf(a), y \in EndsOf(b) : AbsV(x - y) > 150000
Init == a \in Well /\ b \in Well /\ a.m < b.m /\ cl \in {68, 90, 95, 99} /\ Clear
Next == UNCHANGED vars
OnLevel == \A x \in Ends : Near(Chi(x), ZSq(cl), 400)
Even == Cardinality(Ends) \in {2, 4}
Encloses == (\E x \in Ends : x < Best) /\ (\E x \in Ends : x > Best)
Out == Emit => PrintT("@" \o ToJson([a |-> a, b |-> b, cl |-> cl, best |-> Best, ends |-> Sorted(Ends)]))
====
