---- MODULE Combine ----
(* What a combination of models answers.  Members are counting experiments with one optional nuisance parameter
   (data n, background b, signal s, nuisance size t), so every query has an exact answer.  Histories interleave
   membership changes with queries; a query never changes the state. *)
EXTENDS ConfLevel, FiniteSets, TLC, Json
CONSTANTS Depth, MaxMem, Emit, Kinds, Starts, Fixed
VARIABLES mem, hist
vars == <<mem, hist>>
Pool == << [n |-> 8,  b |-> 6, s |-> 2, t |-> 0, min |-> -3, x |-> 2, type |-> "A"],
           [n |-> 3,  b |-> 6, s |-> 1, t |-> 1, min |-> -2, x |-> 1, type |-> "A"],
           [n |-> 12, b |-> 4, s |-> 4, t |-> 1, min |-> -1, x |-> 3, type |-> "B"],
           [n |-> 2,  b |-> 9, s |-> 3, t |-> 2, min |-> -3, x |-> 1, type |-> "B"],
           [n |-> 5,  b |-> 5, s |-> 2, t |-> 1, min |-> 0,  x |-> 2, type |-> "C"],
           \* strong excesses: the best fit lies beyond ten times the nominal signal
           [n |-> 20, b |-> 4, s |-> 1, t |-> 2, min |-> -3, x |-> 1, type |-> "A"],
           [n |-> 42, b |-> 6, s |-> 2, t |-> 3, min |-> -2, x |-> 3, type |-> "B"],
           [n |-> 30, b |-> 9, s |-> 1, t |-> 1, min |-> -1, x |-> 2, type |-> "A"] >>
Over == <<5, 19, 7, 4, 6>>                     \* counts used when a member's data are overridden (2: far above its prediction)
Mus == {<<0, 1>>, <<1, 1>>, <<5, 2>>, <<-1, 2>>}
FarMus == {<<12, 1>>, <<16, 1>>, <<33, 2>>}
\* the member as evaluated: its own data and options
Eff(i, ex, ov, opt) ==
  LET m == Pool[i] IN
  [m EXCEPT !.n = IF i \in ov THEN Over[i] ELSE IF ex = "apriori" THEN m.b ELSE m.n,
            !.t = IF m.type \in opt THEN 0 ELSE m.t]
Effs(q) == [k \in 1..Len(mem) |-> Eff(mem[k], q.ex, q.ov, q.opt)]
RECURSIVE RSum(_, _)
RSum(f, k) == IF k = 0 THEN <<0, 1>> ELSE RAdd(f[k], RSum(f, k - 1))
SumOver(es, F(_)) == RSum([k \in 1..Len(es) |-> F(es[k])], Len(es))
\* three sums determine the combined profile nll: kk mu^2/2 - kh mu + hh/2
KK(es) == SumOver(es, LAMBDA m : Rat(m.s * m.s, 1 + m.t * m.t))
KH(es) == SumOver(es, LAMBDA m : Rat(m.s * (m.n - m.b), 1 + m.t * m.t))
HH(es) == SumOver(es, LAMBDA m : Rat((m.n - m.b) * (m.n - m.b), 1 + m.t * m.t))
MemberNll(m, mu) == Rat((mu[2] * (m.n - m.b) - mu[1] * m.s) * (mu[2] * (m.n - m.b) - mu[1] * m.s), 2 * mu[2] * mu[2] * (1 + m.t * m.t))
CNll(es, mu) == SumOver(es, LAMBDA m : MemberNll(m, mu))
\* members of type "C" have negative rates below zero signal
Bad(mu) == RLt(mu, <<0, 1>>) /\ \E k \in 1..Len(mem) : Pool[mem[k]].type = "C"
Lowest == CHOOSE x \in {Pool[mem[k]].min : k \in 1..Len(mem)} : \A k \in 1..Len(mem) : Pool[mem[k]].min <= x
\* the range contains the best fit of the data however large that is
Far == \E k \in 1..Len(mem) : mem[k] > 5
Top == IF Far THEN 1000 ELSE 10
TopOf(q) == IF 2 \in q.ov /\ \E k \in 1..Len(mem) : mem[k] = 2 THEN 1000 ELSE Top
Domain(q) == IF q.bnd # <<>> THEN q.bnd ELSE <<IF q.neg THEN Lowest ELSE 0, TopOf(q)>>
Best(es, dom) ==
  LET h == RDiv(KH(es), KK(es))
      at(x) == <<RInt(x), RAdd(RSub(RMul(<<x * x, 2>>, KK(es)), RMul(RInt(x), KH(es))), RMul(<<1, 2>>, HH(es)))>>
  IN IF RLt(h, RInt(dom[1])) THEN at(dom[1]) ELSE IF RLt(RInt(dom[2]), h) THEN at(dom[2])
     ELSE <<h, RMul(<<1, 2>>, RSub(HH(es), RMul(KH(es), RDiv(KH(es), KK(es)))))>>
\* Asimov data of a member: its expectation at the best fit conditional on the hypothesis
HypOf(ts) == IF ts = "q0" THEN 1 ELSE 0
AsimovOf(m, h) == LET th == Rat(m.t * (m.n - m.b - m.s * h), 1 + m.t * m.t) IN <<RMicro(RAdd(RInt(m.b + m.s * h), RMul(RInt(m.t), th))), RMicro(th)>>
ANll(es, mu, h) == LET d == RSub(mu, RInt(h)) IN RMul(RMul(<<1, 2>>, KK(es)), RMul(d, d))
ABest(es, dom, h) == IF h < dom[1] THEN <<RInt(dom[1]), ANll(es, RInt(dom[1]), h)>> ELSE IF h > dom[2] THEN <<RInt(dom[2]), ANll(es, RInt(dom[2]), h)>> ELSE <<RInt(h), <<0, 1>>>>
Q0of(q) == [qu |-> "", ex |-> "observed", ov |-> {}, opt |-> {}, mu |-> <<0, 1>>, ts |-> "qtilde", neg |-> FALSE, bnd |-> <<>>]
Opts == {{}, {"A"}, {"B"}, {"A", "B"}}
Ovs == {{}, {1}, {2, 3}, {1, 2, 3, 4, 5}}
Exs == {"observed", "apriori", "aposteriori"}
Tss == {"qtilde", "q", "q0", "qmu", "qmutilde"}
Bnds == {<<>>, <<-1, 1>>, <<2, 6>>}
Qs == (IF "llhd" \in Kinds THEN {[Q0of(0) EXCEPT !.qu = "llhd", !.mu = mu, !.ex = ex, !.ov = ov, !.opt = op] : mu \in Mus, ex \in Exs, ov \in Ovs, op \in Opts} ELSE {})
   \cup (IF "mle" \in Kinds THEN {[Q0of(0) EXCEPT !.qu = "mle", !.ex = ex, !.ov = ov, !.opt = op, !.neg = ng, !.bnd = bd] : ex \in Exs, ov \in Ovs, op \in Opts, ng \in BOOLEAN, bd \in Bnds} ELSE {})
   \cup (IF "asimov" \in Kinds THEN {[Q0of(0) EXCEPT !.qu = "asimov", !.ex = ex, !.opt = op, !.ts = ts] : ex \in Exs, op \in Opts, ts \in Tss} ELSE {})
   \cup (IF "allhd" \in Kinds THEN {[Q0of(0) EXCEPT !.qu = "allhd", !.mu = mu, !.ex = ex, !.opt = op, !.ts = ts] : mu \in Mus, ex \in Exs, op \in Opts, ts \in Tss} ELSE {})
   \cup (IF "amle" \in Kinds THEN {[Q0of(0) EXCEPT !.qu = "amle", !.ex = ex, !.opt = op, !.ts = ts, !.bnd = bd] : ex \in Exs, op \in Opts, ts \in Tss, bd \in Bnds} ELSE {})
   \cup (IF "cls" \in Kinds THEN {[Q0of(0) EXCEPT !.qu = "cls", !.mu = mu, !.ex = ex, !.opt = op] : mu \in {<<1, 1>>, <<5, 2>>, <<1, 2>>} \cup FarMus, ex \in Exs, op \in Opts} ELSE {})
   \cup (IF "chi2" \in Kinds THEN {[Q0of(0) EXCEPT !.qu = "chi2", !.mu = mu, !.ex = ex, !.neg = ng] : ng \in BOOLEAN, mu \in {<<0, 1>>, <<1, 1>>, <<5, 2>>} \cup FarMus, ex \in Exs} ELSE {})
   \cup (IF "info" \in Kinds THEN {[Q0of(0) EXCEPT !.qu = "info"]} ELSE {})
Sens(i) == LET m == Pool[i] IN Rat(m.s * m.s, (1 + m.t * m.t) * m.x * m.x)
Answer(q) ==
  LET es == Effs(q) h == HypOf(q.ts) IN
  CASE q.qu = "llhd" -> <<IF Bad(q.mu) THEN NaN ELSE RMicro(CNll(es, q.mu))>>
    [] q.qu = "mle" -> LET r == Best(es, Domain(q)) IN <<RMicro(r[1]), RMicro(r[2])>>
    [] q.qu = "asimov" -> [k \in 1..Len(mem) |-> AsimovOf(es[k], h)]
    [] q.qu = "allhd" -> <<IF Bad(q.mu) THEN NaN ELSE RMicro(ANll(es, q.mu, h))>>
    [] q.qu = "amle" -> LET r == ABest(es, Domain([q EXCEPT !.neg = q.ts \in {"q", "qmu"}]), h) IN <<RMicro(r[1]), RMicro(r[2])>>
    [] q.qu = "cls" -> LET b == Best(es, <<0, Top>>)
                           st == IF RLt(q.mu, b[1]) THEN 0 ELSE MaxV(0, 2 * (RMicro(CNll(es, q.mu)) - RMicro(b[2])))
                           sA == RMicro(RMul(KK(es), RMul(q.mu, q.mu)))
                       IN <<LnCLsObs("qtilde", st, sA)>> \o LnCLsExpected("qtilde", st, sA)
    [] q.qu = "chi2" -> LET b == Best(es, <<IF q.neg THEN Lowest ELSE 0, Top>>) IN <<2 * (RMicro(CNll(es, q.mu)) - RMicro(b[2]))>>
    \* the smallest expected limit is that of the largest curvature per cross section (ties give every candidate)
    [] q.qu = "info" -> <<Lowest * ONE>> \o [k \in 1..Len(mem) |-> IF \A l \in 1..Len(mem) : RLe(Sens(mem[l]), Sens(mem[k])) THEN 1 ELSE 0]
AllStarts == UNION {{f \in [1..k -> 1..5] : \A a, b \in 1..k : a # b => f[a] # f[b]} : k \in 1..MaxMem}
Init == mem \in Starts
        /\ hist = <<[op |-> "start", mem |-> mem]>>
Log(e) == Len(hist) <= Depth /\ hist' = Append(hist, e)
Add(i) == ~(\E k \in 1..Len(mem) : mem[k] = i) /\ Len(mem) < MaxMem /\ mem' = Append(mem, i) /\ Log([op |-> "add", i |-> i])
Remove(i) == (\E k \in 1..Len(mem) : mem[k] = i) /\ Len(mem) > 1 /\ mem' = SelectSeq(mem, LAMBDA j : j # i) /\ Log([op |-> "remove", i |-> i])
Ask(q) == (q.ov = {1, 2, 3, 4, 5} \/ q.ov = {} \/ \E k \in 1..Len(mem) : mem[k] \in q.ov)
          /\ (IF Far THEN q.ov = {} /\ (q.opt = {} \/ q.qu # "cls") ELSE q.mu \notin FarMus)
          /\ (IF q.bnd = <<>> THEN TRUE ELSE ~Bad(RInt(q.bnd[1]))) /\ UNCHANGED mem /\ Log([op |-> "ask", q |-> q, mem |-> mem, ans |-> Answer(q)])
Next == \/ (~Fixed /\ \E i \in 1..5 : Add(i) \/ Remove(i))
        \/ \E q \in Qs : Ask(q)
\* the closed form used for the minimum agrees with the sum of the members, and no other strength does better
MinIsLeast == Len(hist) = 1 => \A q \in {[Q0of(0) EXCEPT !.ex = ex, !.opt = op, !.neg = ng] : ex \in {"observed", "apriori"}, op \in Opts, ng \in BOOLEAN} :
   LET es == Effs(q) r == Best(es, Domain(q)) IN
   /\ \A mu \in {RInt(x) : x \in -3..10} \cup {<<1, 2>>, <<5, 2>>} : (RLe(RInt(Domain(q)[1]), mu) /\ RLe(mu, RInt(Domain(q)[2]))) => RMicro(r[2]) <= RMicro(CNll(es, mu)) + 2
   /\ AbsV(RMicro(CNll(es, RInt(2))) - RMicro(RAdd(RSub(RMul(RInt(2), KK(es)), RMul(RInt(2), KH(es))), RMul(<<1, 2>>, HH(es))))) <= 3
Out == (Emit /\ Len(hist) = Depth + 1) => PrintT("@" \o ToJson(hist))
====
