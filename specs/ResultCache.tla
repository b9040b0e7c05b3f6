---------------------------- MODULE ResultCache ----------------------------
(* The per-object cache of computed results, as its callers may observe it.   *)
(* One action per critical section of the code:                               *)
(*   Call     a thread asks object o for key k                                *)
(*   Claim    the thread finds neither a result nor a computation in flight   *)
(*            and becomes the computing thread (the marker is inserted)       *)
(*   Begin / EndOk / EndFail   the wrapped computation (execution x) runs      *)
(*   Store    the result replaces the marker, old entries are evicted         *)
(*   Cleanup  the marker of a failed computation is removed                   *)
(*   Take     a retained (or just completed) result is handed to a caller     *)
(*   Clear    all results and markers of an object are dropped                *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Thread, Obj, Key, Execs   \* Execs: set of possible execution identifiers

VARIABLES
  pc,      \* thread -> "idle" | "look" | "claimed" | "run" | "ran" | "failed" | "done" | "clr" | "cleared"
  cur,     \* thread -> <<object, key>> it asked for
  ex,      \* thread -> execution it performs (0: none)
  res,     \* thread -> value it will return (x: result of execution x, -x: failure of x)
  offers,  \* thread -> executions whose result was available at some moment of its call
  store,   \* object -> sequence of <<key, execution>> retained, oldest first
  mark,    \* live in-flight markers: set of <<object, key, thread>>
  of,      \* executions performed so far: set of <<execution, object, key>>
  max      \* number of results retained per object (-1: unlimited)

vars == <<pc, cur, ex, res, offers, store, mark, of, max>>

Retained(o, k) == \E i \in 1..Len(store[o]) : store[o][i][1] = k
InFlight(o, k) == \E t \in Thread : <<o, k, t>> \in mark
ResultOf(o, k) == {store[o][i][2] : i \in {j \in 1..Len(store[o]) : store[o][j][1] = k}}
MarksOf(o) == {m \in mark : m[1] = o}

\* sub-sequence of s without the positions in D
RECURSIVE Without(_, _, _)
Without(s, D, i) == IF i > Len(s) THEN <<>>
                    ELSE (IF i \in D THEN <<>> ELSE <<s[i]>>) \o Without(s, D, i + 1)

Init(maxes) ==
  /\ pc = [t \in Thread |-> "idle"]
  /\ cur = [t \in Thread |-> <<0, 0>>]
  /\ ex = [t \in Thread |-> 0]
  /\ res = [t \in Thread |-> 0]
  /\ offers = [t \in Thread |-> {}]
  /\ store = [o \in Obj |-> <<>>]
  /\ mark = {}
  /\ of = {}
  /\ max \in maxes

Call(t, o, k) ==
  /\ pc[t] = "idle"
  /\ pc' = [pc EXCEPT ![t] = "look"]
  /\ cur' = [cur EXCEPT ![t] = <<o, k>>]
  /\ offers' = [offers EXCEPT ![t] = ResultOf(o, k)]
  /\ UNCHANGED <<ex, res, store, mark, of, max>>

Claim(t) ==
  /\ pc[t] = "look"
  /\ ~Retained(cur[t][1], cur[t][2])
  /\ ~InFlight(cur[t][1], cur[t][2])
  /\ mark' = mark \cup {<<cur[t][1], cur[t][2], t>>}
  /\ pc' = [pc EXCEPT ![t] = "claimed"]
  /\ UNCHANGED <<cur, ex, res, offers, store, of, max>>

Begin(t, x) ==
  /\ pc[t] = "claimed"
  /\ x \notin {e[1] : e \in of}
  /\ ex' = [ex EXCEPT ![t] = x]
  /\ of' = of \cup {<<x, cur[t][1], cur[t][2]>>}
  /\ pc' = [pc EXCEPT ![t] = "run"]
  /\ UNCHANGED <<cur, res, offers, store, mark, max>>

EndOk(t) == /\ pc[t] = "run" /\ pc' = [pc EXCEPT ![t] = "ran"]
            /\ UNCHANGED <<cur, ex, res, offers, store, mark, of, max>>
EndFail(t) == /\ pc[t] = "run" /\ pc' = [pc EXCEPT ![t] = "failed"]
              /\ UNCHANGED <<cur, ex, res, offers, store, mark, of, max>>

\* what may be retained after inserting <<k, x>>: never more than max entries; entries are only
\* dropped when the object is full (computations in flight may be counted as occupying a place)
AfterInsert(o, k, x, fl) ==
  LET full == Append(store[o], <<k, x>>)
      n == Len(full)
  IN IF max < 0 \/ n + fl <= max THEN {full}
     ELSE {Without(full, D, 1) : D \in {D \in SUBSET (1..n) : /\ n - Cardinality(D) <= max
                                                              /\ Cardinality(D) <= n + fl - max}}

Offer(o, k, x) ==
  offers' = [u \in Thread |-> IF pc[u] = "look" /\ cur[u] = <<o, k>> THEN offers[u] \cup {x} ELSE offers[u]]

Store(t) ==
  LET o == cur[t][1]  k == cur[t][2]  x == ex[t] IN
  /\ pc[t] = "ran"
  /\ pc' = [pc EXCEPT ![t] = "done"]
  /\ res' = [res EXCEPT ![t] = x]
  /\ Offer(o, k, x)
  /\ \/ /\ <<o, k, t>> \in mark
        /\ mark' = mark \ {<<o, k, t>>}
        /\ \E s \in AfterInsert(o, k, x, Cardinality(MarksOf(o)) - 1) : store' = [store EXCEPT ![o] = s]
     \/ \* the cache was cleared meanwhile: a stale result need not be retained
        /\ <<o, k, t>> \notin mark
        /\ UNCHANGED <<store, mark>>
  /\ UNCHANGED <<cur, ex, of, max>>

Cleanup(t) ==
  /\ pc[t] = "failed"
  /\ pc' = [pc EXCEPT ![t] = "done"]
  /\ res' = [res EXCEPT ![t] = -ex[t]]
  /\ mark' = mark \ {<<cur[t][1], cur[t][2], t>>}
  /\ UNCHANGED <<cur, ex, offers, store, of, max>>

Take(t, x) ==
  /\ pc[t] = "look"
  /\ x \in offers[t]
  /\ pc' = [pc EXCEPT ![t] = "done"]
  /\ res' = [res EXCEPT ![t] = x]
  /\ UNCHANGED <<cur, ex, offers, store, mark, of, max>>

Ret(t) ==
  /\ pc[t] = "done"
  /\ pc' = [pc EXCEPT ![t] = "idle"]
  /\ ex' = [ex EXCEPT ![t] = 0]
  /\ offers' = [offers EXCEPT ![t] = {}]
  /\ UNCHANGED <<cur, res, store, mark, of, max>>

ClearCall(t, o) ==
  /\ pc[t] = "idle"
  /\ pc' = [pc EXCEPT ![t] = "clr"]
  /\ cur' = [cur EXCEPT ![t] = <<o, 0>>]
  /\ UNCHANGED <<ex, res, offers, store, mark, of, max>>
Clear(t) ==
  /\ pc[t] = "clr"
  /\ pc' = [pc EXCEPT ![t] = "cleared"]
  /\ store' = [store EXCEPT ![cur[t][1]] = <<>>]
  /\ mark' = mark \ MarksOf(cur[t][1])
  /\ UNCHANGED <<cur, ex, res, offers, of, max>>
ClearRet(t) ==
  /\ pc[t] = "cleared"
  /\ pc' = [pc EXCEPT ![t] = "idle"]
  /\ UNCHANGED <<cur, ex, res, offers, store, mark, of, max>>

-----------------------------------------------------------------------------
\* Properties
OneMarker == \A o \in Obj, k \in Key : Cardinality({t \in Thread : <<o, k, t>> \in mark}) <= 1
OnceRetained ==
  \A o \in Obj : /\ \A i, j \in 1..Len(store[o]) : store[o][i][1] = store[o][j][1] => i = j
                 /\ \A k \in Key : ~(Retained(o, k) /\ InFlight(o, k))
Bounded == max >= 0 => \A o \in Obj : Len(store[o]) <= max
RightValue ==
  /\ \A t \in Thread : pc[t] = "done" =>
       LET v == IF res[t] > 0 THEN res[t] ELSE -res[t] IN <<v, cur[t][1], cur[t][2]>> \in of
  /\ \A o \in Obj : \A i \in 1..Len(store[o]) : <<store[o][i][2], o, store[o][i][1]>> \in of
OwnFailure == \A t \in Thread : pc[t] = "done" /\ res[t] < 0 => ex[t] = -res[t]
\* two executions of one computation never overlap unless the cache was cleared in between:
\* every running, un-cleared execution holds the only marker
NoDuplicateWork ==
  \A t, u \in Thread : t # u /\ {<<cur[t][1], cur[t][2], t>>, <<cur[u][1], cur[u][2], u>>} \subseteq mark
      => cur[t] # cur[u]
=============================================================================
