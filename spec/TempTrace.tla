----------------------------- MODULE TempTrace -----------------------------
EXTENDS TraceLib, Temp

VARIABLE l
tvars == <<tmvars, l>>
ev == Trace[l]
Is(e) == l <= Len(Trace) /\ ev.e = e /\ l' = l + 1
Left == SeqToSet(ev.left)

TInit == l = 1 /\ TmInit
\* out: everything outside the scratch directory is as it was.
TNext ==
  \/ Is("reset") /\ files' = {} /\ stuck' = {} /\ up' = FALSE /\ wild' = FALSE
  \/ Is("create") /\ ev.out /\ Create(ev.ok, ev.abs, ev.f, Left)
  \/ Is("make") /\ ev.out /\ Make(ev.ok, ev.name, ev.inside, ev.empty, ev.named, ev.f, Left)
  \/ Is("destroy") /\ ev.out /\ Destroy(ev.f, Left)
  \/ Is("crash") /\ ev.out /\ up' = FALSE /\ Cardinality(Left \ files) <= 1 /\ files' = Left /\ UNCHANGED <<stuck, wild>>
  \/ Is("died") /\ Crash
  \/ Is("plant") /\ PlantFile(ev.name)
  \/ Is("stuck") /\ PlantStuck(ev.name)
  \/ Is("unstick") /\ Unstick
  \/ Is("block") /\ Block(ev.b)

TSpec == TInit /\ [][TNext]_tvars
Constr == Track(l)
Post == Report
=============================================================================
