-------------------------- MODULE ResultCacheImpl --------------------------
(* The algorithm of the code at the grain of its lock and events: a dictionary *)
(* with in-flight markers, one event per marker, an eviction queue.  Checked    *)
(* to refine ResultCache (Fixed = TRUE); with Fixed = FALSE it is the algorithm *)
(* before the repair, which TLC shows to lose waiters and to break its queue.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Thread, Obj, Key, Execs, Maxes, MaxCalls, MaxClears, MaxFails, Fixed
VARIABLES
  pc, cur, ex, res, offers, of, max, left, clears, fails,
  cache,   \* object -> key -> 0 (absent) | -1 (marker) | x
  events,  \* object -> key -> event id (0: none)
  order,   \* object -> sequence of keys
  set,     \* set of events that have been set
  own,     \* thread -> event of its own marker
  waits,   \* thread -> event it waits for
  nev,     \* number of events created
  err      \* threads that died of an internal error
vars == <<pc, cur, ex, res, offers, of, max, left, clears, fails, cache, events, order, set, own, waits, nev, err>>

Init ==
  /\ pc = [t \in Thread |-> "idle"] /\ cur = [t \in Thread |-> <<0, 0>>]
  /\ ex = [t \in Thread |-> 0] /\ res = [t \in Thread |-> 0] /\ offers = [t \in Thread |-> {}]
  /\ of = {} /\ max \in Maxes
  /\ left = [t \in Thread |-> MaxCalls] /\ clears = MaxClears /\ fails = MaxFails
  /\ cache = [o \in Obj |-> [k \in Key |-> 0]] /\ events = [o \in Obj |-> [k \in Key |-> 0]]
  /\ order = [o \in Obj |-> <<>>] /\ set = {} /\ own = [t \in Thread |-> 0] /\ waits = [t \in Thread |-> 0]
  /\ nev = 0 /\ err = {}

O(t) == cur[t][1]
K(t) == cur[t][2]
Size(c) == Cardinality({k \in Key : c[k] # 0})
Done(c) == {k \in Key : c[k] > 0}

Call(t, o, k) ==
  /\ pc[t] = "idle" /\ left[t] > 0
  /\ left' = [left EXCEPT ![t] = @ - 1]
  /\ pc' = [pc EXCEPT ![t] = "look"] /\ cur' = [cur EXCEPT ![t] = <<o, k>>]
  /\ offers' = [offers EXCEPT ![t] = IF cache[o][k] > 0 THEN {cache[o][k]} ELSE {}]
  /\ UNCHANGED <<ex, res, of, max, clears, fails, cache, events, order, set, own, waits, nev, err>>

Lookup(t) ==   \* first locked section
  LET o == O(t)  k == K(t) IN
  /\ pc[t] = "look"
  /\ \/ /\ cache[o][k] > 0
        /\ pc' = [pc EXCEPT ![t] = "done"] /\ res' = [res EXCEPT ![t] = cache[o][k]]
        /\ UNCHANGED <<cache, events, order, own, waits, nev, err>>
     \/ /\ cache[o][k] = -1
        /\ IF events[o][k] = 0
           THEN pc' = [pc EXCEPT ![t] = "dead"] /\ err' = err \cup {t} /\ UNCHANGED waits
           ELSE pc' = [pc EXCEPT ![t] = "wait"] /\ waits' = [waits EXCEPT ![t] = events[o][k]] /\ UNCHANGED err
        /\ UNCHANGED <<res, cache, events, order, own, nev>>
     \/ /\ cache[o][k] = 0
        /\ nev' = nev + 1
        /\ events' = [events EXCEPT ![o][k] = nev + 1]
        /\ cache' = [cache EXCEPT ![o][k] = -1]
        /\ order' = IF Fixed THEN order ELSE [order EXCEPT ![o] = Append(@, k)]
        /\ own' = [own EXCEPT ![t] = nev + 1]
        /\ pc' = [pc EXCEPT ![t] = "claimed"]
        /\ UNCHANGED <<res, waits, err>>
  /\ UNCHANGED <<cur, ex, offers, of, max, left, clears, fails, set>>

Wake(t) ==     \* event.wait() returns, second locked section
  /\ pc[t] = "wait" /\ waits[t] \in set
  /\ waits' = [waits EXCEPT ![t] = 0]
  /\ IF cache[O(t)][K(t)] > 0
     THEN pc' = [pc EXCEPT ![t] = "done"] /\ res' = [res EXCEPT ![t] = cache[O(t)][K(t)]]
     ELSE pc' = [pc EXCEPT ![t] = "look"] /\ UNCHANGED res
  /\ UNCHANGED <<cur, ex, offers, of, max, left, clears, fails, cache, events, order, set, own, nev, err>>

Begin(t) ==
  LET x == 1 + Cardinality(of) IN
  /\ pc[t] = "claimed" /\ pc' = [pc EXCEPT ![t] = "run"]
  /\ ex' = [ex EXCEPT ![t] = x] /\ of' = of \cup {<<x, O(t), K(t)>>}
  /\ UNCHANGED <<cur, res, offers, max, left, clears, fails, cache, events, order, set, own, waits, nev, err>>
EndOk(t) == /\ pc[t] = "run" /\ pc' = [pc EXCEPT ![t] = "ran"]
  /\ UNCHANGED <<cur, ex, res, offers, of, max, left, clears, fails, cache, events, order, set, own, waits, nev, err>>
EndFail(t) == /\ pc[t] = "run" /\ fails > 0 /\ fails' = fails - 1 /\ pc' = [pc EXCEPT ![t] = "failed"]
  /\ UNCHANGED <<cur, ex, res, offers, of, max, left, clears, cache, events, order, set, own, waits, nev, err>>

\* evict: drop from the head of the queue while too many
RECURSIVE EvictFixed(_, _)
EvictFixed(c, q) == IF max >= 0 /\ Len(q) > max THEN EvictFixed([c EXCEPT ![Head(q)] = 0], Tail(q)) ELSE <<c, q>>
RECURSIVE EvictOld(_, _)
EvictOld(c, q) == IF max >= 0 /\ Size(c) > max
                  THEN IF q = <<>> THEN <<c, q, "err">> ELSE EvictOld([c EXCEPT ![Head(q)] = 0], Tail(q))
                  ELSE <<c, q, "ok">>

Offer(t) == offers' = [u \in Thread |-> IF pc[u] \in {"look", "wait"} /\ cur[u] = cur[t] THEN offers[u] \cup {ex[t]} ELSE offers[u]]

StoreRes(t) ==
  LET o == O(t)  k == K(t)  x == ex[t] IN
  /\ pc[t] = "ran"
  /\ Offer(t)
  /\ IF Fixed
     THEN /\ IF events[o][k] = own[t]
             THEN LET r == EvictFixed([cache[o] EXCEPT ![k] = x], Append(order[o], k)) IN
                  /\ cache' = [cache EXCEPT ![o] = r[1]] /\ order' = [order EXCEPT ![o] = r[2]]
                  /\ events' = [events EXCEPT ![o][k] = 0]
             ELSE UNCHANGED <<cache, order, events>>
          /\ set' = set \cup {own[t]}
          /\ pc' = [pc EXCEPT ![t] = "done"] /\ res' = [res EXCEPT ![t] = x] /\ UNCHANGED err
     ELSE LET r == EvictOld([cache[o] EXCEPT ![k] = x], order[o]) IN
          /\ cache' = [cache EXCEPT ![o] = r[1]] /\ order' = [order EXCEPT ![o] = r[2]]
          /\ IF r[3] = "err"
             THEN pc' = [pc EXCEPT ![t] = "dead"] /\ err' = err \cup {t} /\ UNCHANGED <<res, events, set>>
             ELSE /\ pc' = [pc EXCEPT ![t] = "done"] /\ res' = [res EXCEPT ![t] = x] /\ UNCHANGED err
                  /\ events' = [events EXCEPT ![o][k] = 0]
                  /\ set' = set \cup {events[o][k]}
  /\ UNCHANGED <<cur, ex, of, max, left, clears, fails, own, waits, nev>>

\* first occurrence removed
RECURSIVE Drop(_, _)
Drop(q, k) == IF q = <<>> THEN <<>> ELSE IF Head(q) = k THEN Tail(q) ELSE <<Head(q)>> \o Drop(Tail(q), k)
Cleanup(t) ==
  LET o == O(t)  k == K(t) IN
  /\ pc[t] = "failed"
  /\ pc' = [pc EXCEPT ![t] = "done"] /\ res' = [res EXCEPT ![t] = -ex[t]]
  /\ IF Fixed
     THEN /\ IF events[o][k] = own[t]
             THEN cache' = [cache EXCEPT ![o][k] = 0] /\ events' = [events EXCEPT ![o][k] = 0]
             ELSE UNCHANGED <<cache, events>>
          /\ set' = set \cup {own[t]} /\ UNCHANGED order
     ELSE /\ IF cache[o][k] = -1
             THEN cache' = [cache EXCEPT ![o][k] = 0] /\ order' = [order EXCEPT ![o] = Drop(@, k)]
             ELSE UNCHANGED <<cache, order>>
          /\ events' = [events EXCEPT ![o][k] = 0] /\ set' = set \cup {events[o][k]}
  /\ UNCHANGED <<cur, ex, offers, of, max, left, clears, fails, own, waits, nev, err>>

Ret(t) ==
  /\ pc[t] = "done" /\ pc' = [pc EXCEPT ![t] = "idle"]
  /\ ex' = [ex EXCEPT ![t] = 0] /\ offers' = [offers EXCEPT ![t] = {}] /\ own' = [own EXCEPT ![t] = 0]
  /\ UNCHANGED <<cur, res, of, max, left, clears, fails, cache, events, order, set, waits, nev, err>>

ClearCall(t, o) ==
  /\ pc[t] = "idle" /\ clears > 0 /\ clears' = clears - 1
  /\ pc' = [pc EXCEPT ![t] = "clr"] /\ cur' = [cur EXCEPT ![t] = <<o, 0>>]
  /\ UNCHANGED <<ex, res, offers, of, max, left, fails, cache, events, order, set, own, waits, nev, err>>
Clear(t) ==
  /\ pc[t] = "clr" /\ pc' = [pc EXCEPT ![t] = "cleared"]
  /\ cache' = [cache EXCEPT ![O(t)] = [k \in Key |-> 0]]
  /\ events' = [events EXCEPT ![O(t)] = [k \in Key |-> 0]]
  /\ order' = [order EXCEPT ![O(t)] = <<>>]
  /\ UNCHANGED <<cur, ex, res, offers, of, max, left, clears, fails, set, own, waits, nev, err>>
ClearRet(t) == /\ pc[t] = "cleared" /\ pc' = [pc EXCEPT ![t] = "idle"]
  /\ UNCHANGED <<cur, ex, res, offers, of, max, left, clears, fails, cache, events, order, set, own, waits, nev, err>>

Step(t) == \/ Lookup(t) \/ Wake(t) \/ Begin(t) \/ EndOk(t) \/ EndFail(t) \/ StoreRes(t)
           \/ Cleanup(t) \/ Ret(t) \/ Clear(t) \/ ClearRet(t)
Next == \E t \in Thread : \/ Step(t)
                          \/ \E o \in Obj, k \in Key : Call(t, o, k)
                          \/ \E o \in Obj : ClearCall(t, o)
Spec == Init /\ [][Next]_vars /\ \A t \in Thread : WF_vars(Step(t))

NoInternalError == err = {}
QueueConsistent == Fixed => \A o \in Obj : {order[o][i] : i \in 1..Len(order[o])} = Done(cache[o])
Ends == \A t \in Thread : (pc[t] # "idle") ~> (pc[t] = "idle")

\* refinement of the observable cache (retained results in queue order, un-cleared markers)
AbsStore == [o \in Obj |-> [i \in 1..Len(order[o]) |-> <<order[o][i], cache[o][order[o][i]]>>]]
AbsMark == {<<O(t), K(t), t>> : t \in {u \in Thread : /\ pc[u] \in {"claimed", "run", "ran", "failed"}
                                                      /\ events[O(u)][K(u)] = own[u]}}
AbsPc == [t \in Thread |-> IF pc[t] = "wait" THEN "look" ELSE pc[t]]
Abs == INSTANCE ResultCache WITH pc <- AbsPc, store <- AbsStore, mark <- AbsMark
AbsNext == \E t \in Thread :
    \/ \E o \in Obj, k \in Key : Abs!Call(t, o, k)
    \/ \E o \in Obj : Abs!ClearCall(t, o)
    \/ Abs!Claim(t) \/ (\E x \in Execs : Abs!Begin(t, x)) \/ Abs!EndOk(t) \/ Abs!EndFail(t)
    \/ Abs!Store(t) \/ Abs!Cleanup(t) \/ (\E x \in Execs : Abs!Take(t, x)) \/ Abs!Ret(t)
    \/ Abs!Clear(t) \/ Abs!ClearRet(t)
Refines == Abs!Init(Maxes) /\ [][AbsNext]_(Abs!vars)
=============================================================================
