------------------------- MODULE ResultCacheTrace -------------------------
\* Validates recorded executions of the real cache against ResultCache.
EXTENDS ResultCache, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
Diag == IOEnv.TRACE_DIAG = "1"
VARIABLES tr, l
Ev == Traces[tr].ev
E == Ev[l]
tvars == <<vars, tr, l>>
TInit == /\ tr \in 1..Len(Traces) /\ l = 1
         /\ Init({Traces[tr].max})
Is(e) == l <= Len(Ev) /\ E.e = e /\ l' = l + 1 /\ UNCHANGED tr
Silent == l <= Len(Ev) /\ UNCHANGED <<tr, l>>
TNext ==
  \/ Is("call") /\ Call(E.t, E.o, E.k)
  \/ Is("begin") /\ cur[E.t] = <<E.o, E.k>> /\ Begin(E.t, E.x)
  \/ Is("end") /\ ex[E.t] = E.x /\ (IF E.ok THEN EndOk(E.t) ELSE EndFail(E.t))
  \/ Is("ret") /\ pc[E.t] = "done" /\ res[E.t] = E.v /\ Ret(E.t)
  \/ \* a hit: taken and returned
     /\ Is("ret") /\ pc[E.t] = "look" /\ E.v \in offers[E.t]
     /\ pc' = [pc EXCEPT ![E.t] = "idle"] /\ res' = [res EXCEPT ![E.t] = E.v]
     /\ offers' = [offers EXCEPT ![E.t] = {}] /\ UNCHANGED <<cur, ex, store, mark, of, max>>
  \/ Is("clrcall") /\ ClearCall(E.t, E.o)
  \/ Is("clrret") /\ ClearRet(E.t)
  \/ \* everything is quiet: the reported number of retained results
     /\ Is("info") /\ (\A t \in Thread : pc[t] = "idle") /\ E.n = Len(store[E.o]) /\ UNCHANGED vars
  \/ Silent /\ \E t \in Thread : Claim(t) \/ Store(t) \/ Cleanup(t) \/ Clear(t)
TSpec == TInit /\ [][TNext]_tvars
Report == /\ (l > Len(Ev) => PrintT(<<"ACCEPT", tr>>))
          /\ (Diag => PrintT(<<"AT", tr, l>>))
Inv == OneMarker /\ OnceRetained /\ Bounded /\ RightValue /\ OwnFailure
=============================================================================
