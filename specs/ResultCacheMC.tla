--------------------------- MODULE ResultCacheMC ---------------------------
\* Bounded instance of ResultCache for exhaustive exploration, with liveness under weak fairness.
EXTENDS ResultCache
CONSTANTS MaxCalls, MaxClears, MaxFails, Maxes
VARIABLES left, clears, fails
mvars == <<vars, left, clears, fails>>
MInit == Init(Maxes) /\ left = [t \in Thread |-> MaxCalls] /\ clears = MaxClears /\ fails = MaxFails
Keep == UNCHANGED <<left, clears, fails>>
NextX == 1 + Cardinality(of)
Step(t) ==
  \/ Claim(t) /\ Keep
  \/ Begin(t, NextX) /\ Keep
  \/ EndOk(t) /\ Keep
  \/ EndFail(t) /\ fails > 0 /\ fails' = fails - 1 /\ UNCHANGED <<left, clears>>
  \/ Store(t) /\ Keep
  \/ Cleanup(t) /\ Keep
  \/ (\E x \in offers[t] : Take(t, x)) /\ Keep
  \/ Ret(t) /\ Keep
  \/ Clear(t) /\ Keep
  \/ ClearRet(t) /\ Keep
MNext ==
  \E t \in Thread :
    \/ Step(t)
    \/ \E o \in Obj, k \in Key : left[t] > 0 /\ Call(t, o, k) /\ left' = [left EXCEPT ![t] = @ - 1] /\ UNCHANGED <<clears, fails>>
    \/ \E o \in Obj : clears > 0 /\ ClearCall(t, o) /\ clears' = clears - 1 /\ UNCHANGED <<left, fails>>
MSpec == MInit /\ [][MNext]_mvars /\ \A t \in Thread : WF_mvars(Step(t))
\* every call ends
Ends == \A t \in Thread : (pc[t] # "idle") ~> (pc[t] = "idle")
Symm == Permutations(Key)
=============================================================================
