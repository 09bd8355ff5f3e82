---------------------------- MODULE FutureTrace ----------------------------
EXTENDS TraceLib, Future

VARIABLES l
tvars == <<fvars, l>>
ev == Trace[l]
Is(e) == l <= Len(Trace) /\ ev.e = e /\ l' = l + 1

TInit == l = 1 /\ FInit
TNext ==
  \/ Is("reset") /\ p' = "live" /\ val' = None /\ waits' = FNone /\ ready' = FALSE /\ taker' = "none"
  \/ Is("settle") /\ SettleCall(ev.v)
  \/ Is("settleret") /\ SettleRet
  \/ Is("wait") /\ WaitCall(ev.k, ev.inf)
  \/ Is("waitret") /\ WaitRet(ev.k, ev.r)
  \/ Is("take") /\ TakeCall
  \/ Is("takeret") /\ TakeRet(ev.v)
  \* A second fulfilment is refused (the process of the caller dies).
  \/ Is("again") /\ p = "settled" /\ ev.refused /\ UNCHANGED fvars
  \/ Is("done") /\ p = "settled" /\ waits = FNone /\ taker # "taking" /\ UNCHANGED fvars

TSpec == TInit /\ [][TNext]_tvars
Constr == Track(l)
Post == Report
=============================================================================
