----------------------------- MODULE ClockTrace -----------------------------
EXTENDS TraceLib, Clock

VARIABLES l, real
tvars == <<cvars, l, real>>
ev == Trace[l]
Is(e) == l <= Len(Trace) /\ ev.e = e /\ l' = l + 1

TInit == l = 1 /\ real = FALSE /\ CInit(0)

Reset == /\ Is("reset") /\ real' = ev.real
         /\ now' = ev.now /\ pend' = Empty /\ calls' = 0 /\ n' = 1 /\ woken' = {}

\* On the realtime clock time passes by itself.  Waiters whose registration
\* was complete before their deadline are woken in deadline order.
RealOrder(w) == \A a \in DOMAIN pend :
                  ~(pend[a].ret > 0 /\ pend[a].inst = 1 /\ pend[a].dl < pend[w].dl)

TNext ==
  \/ Reset
  \/ Is("reg") /\ RegCall(ev.w, ev.dl) /\ UNCHANGED real
  \/ Is("regret") /\ ~real /\ RegRet(ev.w) /\ UNCHANGED real
  \/ /\ Is("regret") /\ real /\ UNCHANGED <<real, now, woken>>
     /\ calls' = calls - 1 /\ n' = n + 1
     /\ pend' = IF ev.w \in DOMAIN pend
                THEN [pend EXCEPT ![ev.w].ret = n, ![ev.w].inst = IF ev.now < pend[ev.w].dl THEN 1 ELSE 0] ELSE pend
  \/ Is("set") /\ SetCall(ev.t) /\ UNCHANGED real
  \/ Is("setret") /\ SetRet /\ UNCHANGED real
  \/ Is("wake") /\ ~real /\ Wake(ev.w, ev.now) /\ UNCHANGED real
  \/ /\ Is("wake") /\ real /\ ev.w \in DOMAIN pend /\ pend[ev.w].dl <= ev.now
     /\ RealOrder(ev.w) /\ WakeEff(ev.w) /\ UNCHANGED real
  \/ Is("now") /\ ev.t = now /\ UNCHANGED <<cvars, real>>
  \/ Is("end") /\ calls = 0 /\ (real => pend = Empty) /\ Due(now) = {} /\ UNCHANGED <<cvars, real>>

TSpec == TInit /\ [][TNext]_tvars
Constr == Track(l)
Post == Report
=============================================================================
