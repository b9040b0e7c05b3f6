---- MODULE Present ----
(* One experiment can be written down in many ways: channels in another order, signal yields given for another reference
   strength, a channel without signal added, a family of models replaced by one that contains it, proportional Poisson
   channels added up, the independent channels given as separate models that are combined, numbers in other containers.
   The state is a presentation; the actions are rewritings of it.  The experiment it denotes (Meaning) never changes and
   neither does the score of the likelihood, up to the factor k by which the shown signal was multiplied. *)
EXTENDS Fix, FiniteSets, TLC, Json
CONSTANTS Depth, Emit
VARIABLES p, path
vars == <<p, path>>
\* a channel: ids of the elementary channels in it, data, background, shown signal, size of the background uncertainty (upper, lower), third moment
Ch(i, n, b, s, u) == [ids |-> {i}, n |-> n, b |-> b, sig |-> RInt(s), u |-> u, up |-> u, dn |-> u, tm |-> 0]
Cov0 == {}
Pres(f, cs, cov, x) == [fam |-> f, chans |-> cs, cov |-> cov, k |-> <<1, 1>>, form |-> "list", parts |-> FALSE, start |-> x]
Starts == <<
  Pres("poisson", <<Ch(1, 24, 20, 5, 0), Ch(2, 28, 31, 3, 0), Ch(3, 0, 2, 1, 0)>>, Cov0, 1),
  Pres("poisson", <<Ch(1, 9, 8, 4, 0), Ch(2, 6, 4, 2, 0), Ch(3, 14, 12, 3, 0)>>, Cov0, 2),
  Pres("uncorr", <<Ch(1, 58, 50, 12, 12), Ch(2, 51, 48, 15, 16)>>, Cov0, 3),
  Pres("uncorr", <<Ch(1, 7, 4, 3, 2), Ch(2, 33, 30, 4, 5), Ch(3, 12, 20, 6, 4)>>, Cov0, 4),
  Pres("corr", <<Ch(1, 60, 50, 12, 12), Ch(2, 44, 48, 15, 16), Ch(3, 25, 20, 6, 4)>>, {<<1, 2, 60>>, <<2, 3, -20>>}, 5),
  Pres("normal", <<Ch(1, 12, 10, 3, 2), Ch(2, 13, 12, 4, 3), Ch(3, 24, 20, 5, 4)>>, Cov0, 6),
  Pres("mvn", <<Ch(1, 14, 10, 3, 2), Ch(2, 11, 12, 4, 3), Ch(3, 22, 20, 5, 4)>>, {<<1, 2, 2>>, <<1, 3, -3>>}, 7),
  [Pres("third", <<Ch(1, 36, 50, 12, 12), Ch(2, 33, 48, 15, 16)>>, {<<1, 2, 13>>}, 8) EXCEPT !.chans[1].tm = 300, !.chans[2].tm = -400],
  [Pres("effsig", <<Ch(1, 66, 50, 12, 12), Ch(2, 57, 48, 15, 16)>>, {<<1, 2, 12>>}, 9) EXCEPT !.chans[1].dn = 10, !.chans[2].up = 18],
  \* every channel far above / far below the expected background: negative best fits, and weak signals
  Pres("poisson", <<Ch(1, 15, 20, 5, 0), Ch(2, 26, 31, 3, 0), Ch(3, 11, 12, 4, 0)>>, Cov0, 10),
  Pres("uncorr", <<Ch(1, 40, 50, 12, 6), Ch(2, 44, 48, 15, 9)>>, Cov0, 11),
  Pres("mvn", <<Ch(1, 8, 10, 3, 2), Ch(2, 10, 12, 4, 3)>>, {<<1, 2, 2>>}, 12) >>
Indep == {"poisson", "uncorr", "normal"}
CovOf(q, a, b) == IF \E x \in q.cov : (x[1] \in a /\ x[2] \in b) \/ (x[2] \in a /\ x[1] \in b)
                  THEN (CHOOSE x \in q.cov : (x[1] \in a /\ x[2] \in b) \/ (x[2] \in a /\ x[1] \in b))[3] ELSE 0
N(q) == Len(q.chans)
\* -------- what a presentation means
Class(f) == IF f = "poisson" THEN "counts" ELSE IF f \in {"normal", "mvn"} THEN "gauss" ELSE "constrained"
Norm(q, c) == RDiv(c.sig, q.k)                                  \* yield at the original reference strength
Live(q) == {i \in 1..N(q) : q.chans[i].sig[1] # 0 \/ \E x \in q.cov : {x[1], x[2]} \cap q.chans[i].ids # {}}
RECURSIVE SumSet(_, _)
SumSet(S, f) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + SumSet(S \ {x}, f)
Ratio(q, i) == RDiv(Norm(q, q.chans[i]), RInt(q.chans[i].b))
Meaning(q) ==
  CASE Class(q.fam) = "counts" ->
         {<<r, SumSet({i \in Live(q) : Ratio(q, i) = r}, [i \in 1..N(q) |-> q.chans[i].n]), SumSet({i \in Live(q) : Ratio(q, i) = r}, [i \in 1..N(q) |-> q.chans[i].b])>> : r \in {Ratio(q, i) : i \in Live(q)}}
    [] Class(q.fam) = "gauss" ->
         <<{<<q.chans[i].ids, q.chans[i].n - q.chans[i].b, Norm(q, q.chans[i]), q.chans[i].u>> : i \in Live(q)}, q.cov>>
    [] OTHER ->
         <<{LET c == q.chans[i] IN <<c.ids, c.n, c.b, Norm(q, c), c.u,
               IF q.fam = "effsig" THEN <<c.up, c.dn>> ELSE <<c.u, c.u>>, IF q.fam = "third" THEN c.tm ELSE 0>> : i \in Live(q)}, q.cov>>
SameMeaning == Meaning(p) = Meaning(Starts[p.start])
\* -------- exact consequence: the score of a channel at shown strength m/k is k times the original one at m
Score(c, kk, m) == LET r == RAdd(RInt(c.b), RMul(RDiv(m, kk), c.sig)) IN RMul(c.sig, RSub(<<1, 1>>, RDiv(RInt(c.n), r)))
ScoreSum(q, m) == LET f[i \in 0..N(q)] == IF i = 0 THEN <<0, 1>> ELSE RAdd(Score(q.chans[i], q.k, m), f[i - 1]) IN f[N(q)]
ScoreScales == p.fam = "poisson" => \A m \in {<<0, 1>>, <<1, 1>>} : ScoreSum(p, m) = RMul(p.k, ScoreSum(Starts[p.start], m))
\* the lowest strength at which every rate stays positive scales as well
LowestOf(q) == LET S == {RDiv(RInt(-q.chans[i].b), RMul(q.chans[i].sig, <<1, 1>>)) : i \in {j \in 1..N(q) : q.chans[j].sig[1] > 0}} IN CHOOSE x \in S : \A y \in S : RLe(y, x)
LowestScales == (\A i \in 1..N(p) : p.chans[i].b = (IF Class(p.fam) = "gauss" THEN -1 ELSE p.chans[i].b)) => RMul(p.k, LowestOf(p)) = LowestOf(Starts[p.start])
\* -------- rewritings
Swap(i) == i < N(p) /\ p' = [p EXCEPT !.chans[i] = p.chans[i + 1], !.chans[i + 1] = p.chans[i]]
Factors == {<<1, 2>>, <<2, 1>>, <<5, 1>>}
Rescale(f) == LET k == RMul(p.k, f) IN RLe(<<1, 2>>, k) /\ RLe(k, <<5, 1>>) /\ p' = [p EXCEPT !.k = k, !.chans = [i \in 1..N(p) |-> [p.chans[i] EXCEPT !.sig = RMul(@, f)]]]
Silent(n, b) == N(p) < 4 /\ (\A i \in 1..N(p) : 50 \notin p.chans[i].ids) /\ p' = [p EXCEPT !.chans = Append(@, [ids |-> {50}, n |-> n, b |-> b, sig |-> <<0, 1>>, u |-> IF p.fam = "poisson" THEN 0 ELSE 2, up |-> 2, dn |-> 2, tm |-> 0])]
Diagonal == p.cov = {}
SymmetricEnv == \A i \in 1..N(p) : p.chans[i].up = p.chans[i].u /\ p.chans[i].dn = p.chans[i].u
NoThird == \A i \in 1..N(p) : p.chans[i].tm = 0
Becomes(f) ==
  /\ f # p.fam /\ ~p.parts
  /\ \/ p.fam = "uncorr" /\ f \in {"corr", "effsig", "third"}
     \/ f = "uncorr" /\ Diagonal /\ (p.fam = "corr" \/ (p.fam = "effsig" /\ SymmetricEnv) \/ (p.fam = "third" /\ NoThird))
     \/ p.fam = "corr" /\ f \in {"effsig", "third"}
     \/ p.fam = "effsig" /\ SymmetricEnv /\ f = "corr"
     \/ p.fam = "third" /\ NoThird /\ f = "corr"
     \/ (p.fam = "normal" /\ f = "mvn") \/ (p.fam = "mvn" /\ Diagonal /\ f = "normal")
  /\ p' = [p EXCEPT !.fam = f]
Shift(i, d) == Class(p.fam) = "gauss" /\ p.chans[i].sig[1] # 0 /\ p.chans[i].b + d > 5 /\ p.chans[i].b + d < 30 /\ p' = [p EXCEPT !.chans[i].n = @ + d, !.chans[i].b = @ + d]
Merge(i) == p.fam = "poisson" /\ N(p) > 2 /\ i < N(p) /\ Ratio(p, i) = Ratio(p, i + 1)
  /\ p' = [p EXCEPT !.chans = SubSeq(p.chans, 1, i - 1) \o <<[p.chans[i] EXCEPT !.ids = @ \cup p.chans[i + 1].ids, !.n = @ + p.chans[i + 1].n, !.b = @ + p.chans[i + 1].b, !.sig = RAdd(@, p.chans[i + 1].sig)]>> \o SubSeq(p.chans, i + 2, N(p))]
\* a Poisson channel cut into two halves of the same composition, the counts shared out unevenly
Cut(i) == p.fam = "poisson" /\ N(p) < 4 /\ p.chans[i].b % 2 = 0 /\ p.chans[i].n > 2 /\ Cardinality(p.chans[i].ids) = 1 /\ p.chans[i].ids \subseteq 1..9
  /\ LET c == p.chans[i] h == [c EXCEPT !.b = c.b \div 2, !.sig = RMul(c.sig, <<1, 2>>)] IN
     p' = [p EXCEPT !.chans = SubSeq(p.chans, 1, i - 1) \o <<[h EXCEPT !.n = c.n - 2, !.ids = {c.b + 60}], [h EXCEPT !.n = 2, !.ids = {c.b + 160}]>> \o SubSeq(p.chans, i + 1, N(p))]
Forms == {"list", "array", "int", "strided", "readonly", "float"}
Reform(f) == f # p.form /\ p' = [p EXCEPT !.form = f]
Apart == p.fam \in Indep /\ ~p.parts /\ (\A i \in 1..N(p) : p.chans[i].sig[1] # 0) /\ p' = [p EXCEPT !.parts = TRUE]
Did(a) == Len(path) < Depth /\ path' = Append(path, a)
Next == \/ \E i \in 1..N(p) : Swap(i) /\ Did("swap")
        \/ \E f \in Factors : Rescale(f) /\ Did("rescale")
        \/ \E nb \in {<<7, 7>>, <<6, 9>>} : ~p.parts /\ Silent(nb[1], nb[2]) /\ Did("silent")
        \/ \E f \in {"uncorr", "corr", "effsig", "third", "normal", "mvn"} : Becomes(f) /\ Did("become")
        \/ \E i \in 1..N(p), d \in {-3, 5} : Shift(i, d) /\ Did("shift")
        \/ \E i \in 1..N(p) : (Merge(i) /\ Did("merge")) \/ (Cut(i) /\ Did("cut"))
        \/ \E f \in Forms : Reform(f) /\ Did("reform")
        \/ Apart /\ Did("apart")
Init == \E x \in 1..Len(Starts) : p = Starts[x] /\ path = <<>>
\* a rewriting changes the factor between shown and original strength only by rescaling
OnlyRescale == [][p'.k = p.k \/ \E f \in Factors : Rescale(f)]_vars
Shown == [start |-> p.start, fam |-> p.fam, k |-> p.k, form |-> p.form, parts |-> p.parts, path |-> path,
          ids |-> [i \in 1..N(p) |-> p.chans[i].ids], n |-> [i \in 1..N(p) |-> p.chans[i].n], b |-> [i \in 1..N(p) |-> p.chans[i].b],
          s |-> [i \in 1..N(p) |-> p.chans[i].sig], u |-> [i \in 1..N(p) |-> p.chans[i].u], tm |-> [i \in 1..N(p) |-> p.chans[i].tm],
          env |-> [i \in 1..N(p) |-> <<p.chans[i].up, p.chans[i].dn>>],
          cov |-> [i \in 1..N(p) |-> [j \in 1..N(p) |-> IF i = j THEN p.chans[i].u * p.chans[i].u ELSE CovOf(p, p.chans[i].ids, p.chans[j].ids)]]]
Out == Emit => PrintT("@" \o ToJson(Shown))
====
