---- MODULE MergeBinsMC ----
EXTENDS MergeBins
CONSTANTS N, Emit
VARIABLES n, gs
Groups(S) == UNION {[1..k -> S] : k \in 1..2} \cup {<<0, 1, 2>>, <<2, 0, 1>>}
Reqs == {<<>>} \cup UNION {[1..k -> Groups(-1..N)] : k \in 1..2}
Init == n \in 2..N /\ gs \in Reqs
Next == UNCHANGED <<n, gs>>
\* a covariance whose sums tell which entries went in; symmetric
V(i) == CASE i = 1 -> 1 [] i = 2 -> 10 [] i = 3 -> 100 [] i = 4 -> 1000 [] OTHER -> 10000
M == [i \in 1..n |-> [j \in 1..n |-> IF i = j THEN 7 * V(i) * V(i) ELSE IF i < j THEN V(i) * V(j) + i ELSE V(i) * V(j) + j]]
Y == [i \in 1..n |-> V(i) + i]
RECURSIVE Total(_, _)
Total(v, k) == IF k = 0 THEN 0 ELSE v[k] + Total(v, k - 1)
Ok == Admissible(n, gs)
Conserved == Ok => LET fg == Full(n, gs) y == Yields(Y, fg) IN Total(y, Len(y)) = Total(Y, n)
Partition == Ok => LET f == Flat(Full(n, gs)) IN Range(f) = 0..n - 1 /\ Len(f) = n
Symmetric == Ok => LET fg == Full(n, gs) c == Cov(M, fg) IN \A i, j \in 1..Len(fg) : c[i][j] = c[j][i]
Kept == Ok => LET fg == Full(n, gs) c == Cov(M, fg) IN
           \A i, j \in Len(gs) + 1..Len(fg) : c[i][j] = M[fg[i][1] + 1][fg[j][1] + 1]
\* the variance of the sum of everything is conserved
Whole == Ok => LET fg == Full(n, gs) c == Cov(M, fg) all == [i \in 1..n |-> i - 1] IN
           SumRows(M, all, all) = Total([i \in 1..Len(fg) |-> Total(c[i], Len(fg))], Len(fg))
EmitOut == Emit => PrintT("@" \o ToJson([n |-> n, gs |-> gs, ok |-> Ok, y |-> Y, m |-> M,
              full |-> IF Ok THEN Full(n, gs) ELSE <<>>, yy |-> IF Ok THEN Yields(Y, Full(n, gs)) ELSE <<>>, mm |-> IF Ok THEN Cov(M, Full(n, gs)) ELSE <<>>]))
====
