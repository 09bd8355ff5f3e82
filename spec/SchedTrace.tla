----------------------------- MODULE SchedTrace -----------------------------
EXTENDS TraceLib, Sched

VARIABLES l
tvars == <<svars, l>>
ev == Trace[l]
Is(e) == l <= Len(Trace) /\ ev.e = e /\ l' = l + 1

TInit == l = 1 /\ SInit
TNext ==
  \/ Is("reset") /\ sub' = SNone /\ run' = {} /\ fin' = {} /\ idlers' = SNone
  \/ Is("sub") /\ SubCall(ev.t, ev.w)
  \/ Is("subret") /\ SubRet(ev.t)
  \/ Is("start") /\ Start(ev.t)
  \* A task that waits for others sees them start as long as there are threads.
  \/ Is("met") /\ ev.t \in run /\ ev.r /\ UNCHANGED svars
  \/ Is("end") /\ End(ev.t)
  \/ Is("idle") /\ IdleCall(ev.k)
  \/ Is("idleret") /\ IdleRet(ev.k)
  \/ Is("done") /\ AllDone /\ idlers = SNone /\ UNCHANGED svars

TSpec == TInit /\ [][TNext]_tvars
Constr == Track(l)
Post == Report
=============================================================================
