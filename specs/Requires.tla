---- MODULE Requires ----
(* Which version requirements the current version meets.  A requirement is a list of clauses, all of which must hold;
   versions are compared number by number.  A pre-release comes before the release it leads to; whether it meets "<" or "!=" of that
   release is left open. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Cur, Pre, MaxClauses, Emit
VARIABLES req
M == Cur[1]  N == Cur[2]  P == Cur[3]
Vers == {Cur, <<0, 0, 1>>, <<M, N, P + 1>>, <<M, N, P + 10>>, <<M, N + 1, 0>>, <<M, N + 10, 0>>, <<M + 1, 0, 0>>, <<M + 10, 0, 0>>}
        \cup (IF P > 0 THEN {<<M, N, P - 1>>} ELSE {}) \cup (IF N > 0 THEN {<<M, N - 1, 99>>} ELSE {}) \cup (IF M > 0 THEN {<<M - 1, 99, 99>>} ELSE {})
Ops == {">=", "<=", ">", "<", "==", "!="}
Less(a, b) == \/ a[1] < b[1] \/ (a[1] = b[1] /\ (a[2] < b[2] \/ (a[2] = b[2] /\ a[3] < b[3])))
Holds(c) == IF Pre /\ c.v = Cur THEN c.op = "<=" ELSE CASE c.op = ">=" -> ~Less(Cur, c.v) [] c.op = "<=" -> ~Less(c.v, Cur) [] c.op = ">" -> Less(c.v, Cur)
              [] c.op = "<" -> Less(Cur, c.v) [] c.op = "==" -> c.v = Cur [] c.op = "!=" -> c.v # Cur
Met(r) == \A i \in 1..Len(r) : Holds(r[i])
Clauses == {c \in [op : Ops, v : Vers] : ~(Pre /\ c.v = Cur /\ c.op \in {"<", "!="})}
Init == req = <<>>
Next == Len(req) < MaxClauses /\ \E c \in Clauses : req' = Append(req, c)
\* adding a clause never makes an unusable backend usable, and the order of the clauses does not matter
Narrows == [][Met(req') => Met(req)]_req
Order == Met(req) = Met([i \in 1..Len(req) |-> req[Len(req) + 1 - i]])
Total == \A v \in (IF Pre THEN Vers \ {Cur} ELSE Vers) : Cardinality({o \in {"<", "==", ">"} : Holds([op |-> o, v |-> v])}) = 1
EmitOut == (Emit /\ req # <<>>) => PrintT("@" \o ToJson([req |-> req, met |-> Met(req)]))
====
