----------------------------- MODULE CacheTrace -----------------------------
EXTENDS TraceLib, Cache

VARIABLES l, max
tvars == <<cvars, l, max>>
ev == Trace[l]
Is(e) == l <= Len(Trace) /\ ev.e = e /\ l' = l + 1
V == [d |-> ev.d, m |-> ev.m, sz |-> ev.sz, exp |-> ev.now + ev.age, acc |-> ev.now]

TInit == l = 1 /\ CInit /\ max = 0
Calls ==
  \/ /\ Is("open")
     /\ \/ ev.ret = "OK" /\ (OpenOk(ev.now, max, ev.n, ev.b) \/ (ev.f /\ OpenCut /\ ev.b <= max))
        \/ ev.ret # "OK" /\ ~ev.f /\ OpenFails
        \/ ev.ret # "OK" /\ ev.f /\ OpenCut
  \/ /\ Is("put")
     /\ \/ ev.ret = "OK" /\ PutOk(ev.id, V, ev.now, max, ev.n, ev.b)
        \/ ev.ret = "OK" /\ ev.f /\ ev.b <= max /\ ~Big(ev.sz, max) /\ PutCut(ev.id, V) /\ ev.id \in DOMAIN ent' /\ ent'[ev.id] = V
        \/ ev.ret = "RESOURCE_EXHAUSTED" /\ PutTooBig(ev.sz, max, ev.n, ev.b)
        \/ ev.ret # "OK" /\ ev.f /\ PutCut(ev.id, V)
        \/ ev.ret # "OK" /\ ~ev.f /\ FailDirty(Some(ent))
  \/ /\ Is("get")
     /\ \/ ev.ret = "OK" /\ GetHit(ev.id, ev.d, ev.m, ev.now, ev.age, ev.n, ev.b, max)
        \/ ev.ret = "NOT_FOUND" /\ GetMiss(ev.id, ev.now, ev.n, ev.b, max)
        \/ ev.ret # "OK" /\ ev.f /\ GetCut(ev.id, ev.now, ev.age)
        \/ ev.ret # "OK" /\ ~ev.f /\ FailDirty({ent, Without(ent, {ev.id})})
  \/ /\ Is("crash")
     /\ CASE ev.op = "open" -> OpenCut [] ev.op = "put" -> PutCut(ev.id, V) [] ev.op = "get" -> GetCut(ev.id, ev.now, ev.age)
  \/ Is("exit") /\ UNCHANGED cvars
TNext ==
  \/ Is("reset") /\ max' = ev.max /\ ent' = CNone /\ dirty' = FALSE /\ refused' = FALSE
  \/ Calls /\ UNCHANGED max

TSpec == TInit /\ [][TNext]_tvars
Constr == Track(l)
Post == Report
=============================================================================
