---- MODULE ContourMC ----
(* The explicit profile is the minimum over the profiled coordinate, on a grid; and the cases for the implementation. *)
EXTENDS Contour, Json
CONSTANTS Emit, Grid
VARIABLES c
None == 1000000
BoundsOf(d) == {[lo |-> [i \in 1..d |-> -None], hi |-> [i \in 1..d |-> None], kind |-> "free"],
                [lo |-> [i \in 1..d |-> -2 * U], hi |-> [i \in 1..d |-> 2 * U], kind |-> "box"],
                [lo |-> [i \in 1..d |-> IF i = 1 THEN U \div 5 ELSE -None], hi |-> [i \in 1..d |-> None], kind |-> "low"],
                [lo |-> [i \in 1..d |-> -None], hi |-> [i \in 1..d |-> IF i = d THEN U \div 10 ELSE None], kind |-> "high"]}
Cases == {x \in [shape : 1..NShapes, first : 1..3, cl : 1..5, b : {"free", "box", "low", "high"}, how : {"model", "call"}] : 
            x.first \in Firsts[x.shape] /\ (x.b = "free" => x.how = "model")
            \* bounds given in the call concern the contour coordinates; those of profiled ones come from the model
            /\ (x.how = "call" => x.first = Dims[x.shape])
            \* the order of profiling is explicit only if the bounded profiled coordinate is the last one
            /\ (x.shape = 5 /\ x.first = 1 => x.b \notin {"box", "high"})}
Bd(x) == CHOOSE b \in BoundsOf(Dims[x.shape]) : b.kind = x.b
Init == c \in Cases
Next == UNCHANGED c
Steps == {g * (U \div 2) : g \in -Grid..Grid}
\* every completion of the contour coordinates inside the bounds is at least as far as the profile; and the profile is inside
ProfileIsMin ==
  LET b == Bd(c) d == Dims[c.shape] IN
  \A z \in [1..d -> Steps] : (\A i \in 1..d : b.lo[i] <= z[i] /\ z[i] <= b.hi[i]) =>
     LET zc == SubSeq(z, 1, c.first) f == Fill(c.shape, zc, b.lo, b.hi) IN
       /\ Prof(c.shape, zc, b.lo, b.hi) <= Dev(c.shape, z) + 5
       /\ \A i \in 1..d : b.lo[i] <= f[i] /\ f[i] <= b.hi[i]
EmitOut == Emit => PrintT("@" \o ToJson([shape |-> c.shape, first |-> c.first, cl |-> c.cl, lo |-> Bd(c).lo, hi |-> Bd(c).hi, how |-> c.how, b |-> c.b]))
====
