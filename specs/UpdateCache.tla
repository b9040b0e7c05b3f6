---- MODULE UpdateCache ----
(* The version lookup with its stored answer: clock advances, network outcomes, damage to the store, failing writes and
   processes that die while storing.  Times are in minutes; a stored answer lives for Life minutes. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Depth, Emit, Life
VARIABLES store, dir, hist
vars == <<store, dir, hist>>
\* store: stored answers, newest first: [age, good, ver];  dir: "ok" | "blocked"
Good == {"new1", "new2"}
Fails == {"conn", "timeout", "readtimeout", "status404", "status500", "nojson", "list", "null", "boom"}
Usable(s) == {i \in 1..Len(s) : s[i].good /\ s[i].age <= Life}
Newest(s) == CHOOSE i \in Usable(s) : \A j \in Usable(s) : i <= j
Request == IF Usable(store) = {} THEN 1 ELSE 0
Shown(net) == IF Usable(store) # {} THEN store[Newest(store)].ver ELSE IF net \in Good THEN net ELSE ""
Init == store = <<>> /\ dir = "ok" /\ hist = <<>>
Rec(op, x, req, ver) == hist' = Append(hist, [op |-> op, x |-> x, req |-> req, ver |-> ver])
Saved(ver) == IF dir = "ok" THEN <<[age |-> 0, good |-> TRUE, ver |-> ver]>> ELSE store
Torn == IF dir = "ok" THEN <<[age |-> 0, good |-> FALSE, ver |-> ""]>> \o store ELSE store
Look(net) == /\ store' = IF Request = 1 /\ net \in Good THEN Saved(net) ELSE store
             /\ UNCHANGED dir /\ Rec("look", net, Request, Shown(net))
Last == IF hist = <<>> THEN "" ELSE hist[Len(hist)].op
(* storing fails after k bytes, with an error or by the end of the process; the next lookup must look again, unless it finds
   the whole answer stored nevertheless.  Right after it the state is known again. *)
Torn0(op, k) == /\ Request = 1 /\ dir = "ok" /\ store' = Torn /\ UNCHANGED dir
                /\ Rec(op, [net |-> "new1", k |-> k], 1, IF op = "crash" THEN "?" ELSE "new1")
Probe(k) == /\ Last \in {"crash", "failwrite"} /\ k = hist[Len(hist)].x.k
            /\ store' = Saved("new1") /\ UNCHANGED dir /\ Rec("look", "new1", IF k <= 1 THEN 1 ELSE -1, "new1")
Advance(d) == /\ store # <<>> /\ \A i \in 1..Len(store) : store[i].age + d \notin (Life - 1)..(Life + 1)
              /\ store' = [i \in 1..Len(store) |-> [store[i] EXCEPT !.age = IF @ > Life THEN @ ELSE @ + d]]
              /\ UNCHANGED dir /\ Rec("advance", d, 0, "")
Damage(kind) == /\ store # <<>> /\ dir = "ok" /\ store' = [i \in 1..Len(store) |-> [store[i] EXCEPT !.good = FALSE]] /\ UNCHANGED dir /\ Rec("damage", kind, 0, "")
Plant(kind) == /\ dir = "ok" /\ Len(store) < 3 /\ store' = <<[age |-> 0, good |-> FALSE, ver |-> ""]>> \o store /\ UNCHANGED dir /\ Rec("plant", kind, 0, "")
Wipe == /\ dir = "ok" /\ store' = <<>> /\ UNCHANGED dir /\ Rec("wipe", "", 0, "")
Block(kind) == /\ dir = "ok" /\ store' = <<>> /\ dir' = "blocked" /\ Rec("block", kind, 0, "")
Unblock == /\ dir = "blocked" /\ dir' = "ok" /\ UNCHANGED store /\ Rec("unblock", "", 0, "")
Damages == {"half", "empty", "text", "list", "null", "binary", "folder", "cut1"}
Next == /\ Len(hist) < Depth
        /\ IF Last \in {"crash", "failwrite"} THEN \E k \in {0, 1, 7, 40} : Probe(k)
           ELSE \/ \E n \in Good \cup Fails : Look(n)
                \/ \E op \in {"crash", "failwrite"}, k \in {0, 1, 7, 40} : Torn0(op, k)
                \/ \E d \in {2, 700, 1430, 1445} : Advance(d)
                \/ \E k \in Damages : Damage(k)
                \/ \E k \in Damages : Plant(k)
                \/ \E k \in {"file", "link"} : Block(k)
                \/ Wipe \/ Unblock
\* -- properties of the design --
Looks == {i \in 1..Len(hist) : hist[i].op = "look"}
\* nothing is requested while a recent valid answer is stored, and something is requested whenever there is none
RateLimited == [][(Len(hist') > Len(hist) /\ hist'[Len(hist')].op = "look" /\ Last \notin {"crash", "failwrite"}) =>
                   (hist'[Len(hist')].req = 0 <=> \E i \in 1..Len(store) : store[i].good /\ store[i].age <= Life)]_vars
\* only successful answers are ever stored
OnlyGood == [][\A i \in 1..Len(store') : (store'[i].good /\ store'[i].age = 0) => store'[i].ver \in Good]_vars
\* two requests are a lifetime apart unless something failed or was damaged in between
Quiet(i, j) == \A k \in i + 1..j - 1 : hist[k].op \in {"look", "advance"}
RECURSIVE Elapsed(_, _)
Elapsed(i, j) == IF i >= j THEN 0 ELSE (IF hist[i].op = "advance" THEN hist[i].x ELSE 0) + Elapsed(i + 1, j)
Limit == \A i, j \in Looks : (i < j /\ hist[i].req = 1 /\ hist[i].ver # "" /\ hist[j].req = 1 /\ dir = "ok"
                              /\ (\A k \in 1..j : hist[k].op \in {"look", "advance"})) => Elapsed(i, j) > Life
EmitOut == (Emit /\ Len(hist) = Depth /\ Last \in {"look"}) => PrintT("@" \o ToJson(hist))
====
