---- MODULE BuiltinMC ----
(* Every configuration of the input with every one of its parameter points; the harness compares the printed
   predictions with the real models. *)
EXTENDS Builtin, TLC, Json, IOUtils
CONSTANTS Emit
Cfgs == JsonDeserialize(IOEnv.CASE_FILE)
VARIABLES k, at
vars == <<k, at>>
c == Cfgs[k]
p == c.pts[at]
Init == k \in 1..Len(Cfgs) /\ at = 0
Next == at < Len(c.pts) /\ at' = at + 1 /\ UNCHANGED k
AtPoi(mu) == [p EXCEPT ![1] = mu]
\* design facts of the specification itself
Linear == at > 0 => \A i \in 1..K(c) : Near(Rate(c, AtPoi(2000000), i) + Rate(c, AtPoi(0), i), 2 * Rate(c, AtPoi(ONE), i), 20)
ZeroStrength == at > 0 => \A i \in 1..K(c) : Rate(c, AtPoi(0), i) = BkgTerm(c, p, i)
Layout == at > 0 => Len(p) = NPar(c) /\ Len(Names(c)) = NPar(c)
NoShift(q) == [j \in 1..Len(q) |-> IF j > 1 + c.nsp + NBkg(c) THEN 0 ELSE q[j]]
Vanishing == at > 0 => Rates(c, NoShift(p)) = Rates(Plain(c), PlainP(c, p))
MinIsTight == (at = 0 /\ MinPoi(c) # NegInf) =>
   LET m == MinPoi(c) IN /\ \A i \in 1..K(c) : c.s[i] >= 0 => c.b[i] * ONE + MulM(m, c.s[i] * ONE) >= -40
                         /\ \E i \in 1..K(c) : c.b[i] * ONE + MulM(m - 100000, c.s[i] * ONE) < 0
Header == [k |-> k, npar |-> NPar(c), named |-> Named(c), names |-> Names(c), minpoi |-> MinPoi(c), alive |-> Alive(c), aux |-> NAux(c)]
Point == [k |-> k, at |-> at, rates |-> Rates(c, p), plain |-> IF Len(c.mods) = 0 THEN <<>> ELSE Rates(Plain(c), PlainP(c, p)), ok |-> Positive(c, p),
          con |-> Constraint(c, p),
          lp |-> IF Positive(c, p) THEN [d \in 1..Len(c.data) |-> LogProb(c, p, c.data[d])] ELSE <<>>]
Out == Emit => PrintT("@" \o ToJson(IF at = 0 THEN Header ELSE Point))
====
