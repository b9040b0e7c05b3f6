---- MODULE Startup ----
(* Processes that import the package one after another in one home folder, each with its own environment: whether the online
   check is switched off, which level of logging is asked for, and what the network answers.  A stored answer outlives the
   process; switching the check off neither asks the network nor says anything about versions; the level asked for decides
   whether the announcement is visible. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Depth, Emit
VARIABLES store, hist
vars == <<store, hist>>
Checks == {"unset", "OFF", "off", "Off", "ON", "on"}
Levels == {"unset", "0", "1", "2", "3", "neg"}
Nets == {"new1", "new2", "conn", "status500", "nojson"}
On(k) == k \notin {"OFF", "off", "Off"}
Good(n) == n \in {"new1", "new2"}
\* the level of the logger: 10 debug, 20 information, 30 warnings, 40 errors
LevelOf(l) == CASE l = "0" -> 40 [] l = "1" -> 30 [] l = "3" -> 10 [] OTHER -> 20
Known(k, n) == IF ~On(k) THEN "" ELSE IF store # "" THEN store ELSE IF Good(n) THEN n ELSE ""
Requests(k) == IF On(k) /\ store = "" THEN 1 ELSE 0
Start(k, l, n) ==
  /\ Len(hist) < Depth
  /\ store' = IF On(k) THEN Known(k, n) ELSE store
  /\ hist' = Append(hist, [op |-> "start", check |-> k, level |-> l, net |-> n, req |-> Requests(k), lvl |-> LevelOf(l),
                           say |-> IF LevelOf(l) <= 30 THEN Known(k, n) ELSE "", stored |-> store'])
Age == /\ Len(hist) < Depth /\ store # "" /\ store' = ""
       /\ hist' = Append(hist, [op |-> "age", check |-> "", level |-> "", net |-> "", req |-> 0, lvl |-> 0, say |-> "", stored |-> ""])
Init == store = "" /\ hist = <<>>
Next == Age \/ \E k \in Checks, l \in Levels, n \in Nets : Start(k, l, n)
Starts == {i \in 1..Len(hist) : hist[i].op = "start"}
Silent == \A i \in Starts : ~On(hist[i].check) => (hist[i].req = 0 /\ hist[i].say = "")
\* without ageing in between, at most one successful request is made by any number of processes
Once == \A i, j \in Starts : (i < j /\ hist[i].req = 1 /\ hist[i].stored # "" /\ hist[j].req = 1) => \E m \in i..j : hist[m].op = "age"
EmitOut == (Emit /\ Len(hist) = Depth /\ hist[Depth].op = "start") => PrintT("@" \o ToJson(hist))
====
