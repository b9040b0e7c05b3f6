---- MODULE LimitsMC ----
(* Intervals that cannot reach their level on one side.  The profile is w (x - h)^2 / 2; a nuisance parameter is confined to
   [h - l, h + r], a signal strength is not confined but its profile may become flat below the level on one side.
   Where the level is not reached, a nuisance interval ends at the limit of its parameter, a strength has no end ("open"). *)
EXTENDS Fix, TLC, Json
CONSTANTS Emit, Bests, Rooms
VARIABLES h, w, l, r, cl, flat
vars == <<h, w, l, r, cl, flat>>
ZSq(c) == CASE c = 68 -> 988946 [] c = 90 -> 2705543 [] c = 95 -> 3841459
Half == SqrtM(ZSq(cl) \div w)
Reached(room) == Half <= room
Init == /\ h \in Bests /\ w \in {1, 4} /\ l \in Rooms /\ r \in Rooms /\ cl \in {68, 90, 95} /\ flat \in {"left", "right", "none"}
        /\ AbsV(Half - l) > 100000 /\ AbsV(Half - r) > 100000
Next == UNCHANGED vars
\* nuisance parameter: end points and whether they are genuine crossings
NL == IF Reached(l) THEN h - Half ELSE h - l
NR == IF Reached(r) THEN h + Half ELSE h + r
\* strength: the side that becomes flat has no end
SL == [x |-> h - Half, open |-> flat = "left"]
SR == [x |-> h + Half, open |-> flat = "right"]
Within == h - l <= NL /\ NL < h /\ h < NR /\ NR <= h + r
Level(x) == MulM(SqM(x - h), w * ONE)
NeverAbove == Level(NL) <= ZSq(cl) + 200 /\ Level(NR) <= ZSq(cl) + 200
OnLevelUnlessCut == /\ (Near(Level(NL), ZSq(cl), 200) \/ NL = h - l) /\ (Near(Level(NR), ZSq(cl), 200) \/ NR = h + r)
Out == Emit => PrintT("@" \o ToJson([h |-> h, w |-> w, l |-> l, r |-> r, cl |-> cl, flat |-> flat, nl |-> NL, nr |-> NR, sl |-> SL, sr |-> SR]))
====
