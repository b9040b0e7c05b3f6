---- MODULE OverlapMC ----
(* All schedules of Overlap with a bounded number of pre-emptions, printed for the replay into the code. *)
EXTENDS Overlap, TLC, Json
CONSTANTS N1, N2, N3, Emit
Sizes == [t \in Thread |-> IF t = 1 THEN N1 ELSE IF t = 2 THEN N2 ELSE N3]
EmitOut == (Emit /\ Done) => PrintT("@" \o ToJson(path))
====
