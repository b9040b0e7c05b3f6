---- MODULE TailMC ----
(* The distribution of the (signed square root of the) test statistic under a hypothesis, in the asymptotic limit: a unit
   normal displaced by `shift`.  Its tail probability, the logarithm of that, and its value at a number of standard
   deviations are one object: the three queries must agree with each other for every shift and value. *)
EXTENDS ConfLevel, TLC, Json
CONSTANT Emit
Shifts == {-20, -12, -7, -2, -1, 0, 1, 3, 8}
Values == {-12, -5, -1, 0, 1, 2, 6, 11, 20}
VARIABLES sh, v
\* in units of 1/4
Q(x) == x * 250000
Init == sh \in Shifts /\ v \in Values
Next == UNCHANGED <<sh, v>>
LnTail(s, x) == LogPhi(Q(s) - Q(x))
At(s, n) == Q(n) + Q(s)
\* the probability falls with the value, depends only on the distance, and the value at n deviations has the tail of n deviations
Falls == LnTail(sh, v) >= LnTail(sh, v + 1) /\ LnTail(sh + 2, v + 2) = LnTail(sh, v)
Quantile == LnTail(sh, sh + v) = LogPhi(-Q(v)) /\ At(sh, v) = Q(sh + v)
Out == Emit => PrintT("@" \o ToJson([shift |-> sh, value |-> v, lntail |-> LnTail(sh, v), at |-> At(sh, v)]))
====
