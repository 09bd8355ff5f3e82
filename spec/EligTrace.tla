----------------------------- MODULE EligTrace -----------------------------
EXTENDS TraceLib, Elig

VARIABLES l
ev == Trace[l]
P(p) == IF p.k = "swor" THEN [p EXCEPT !.matched = SeqToSet(@)]
        ELSE IF p.k = "tf" THEN [p EXCEPT !.allowed = SeqToSet(@)] ELSE p
Policies == [i \in 1..Len(ev.ps) |-> P(ev.ps[i])]
OkBy(t, S) == Eligible(Policies, S, t.name, ev.hist, ev.ett, ev.now, ev.f)
Uses(t) == SeqToSet(t.uses)

\* A custom policy is asked about tasks that use it, and about all that depend on its answer.
AskedWell(q) ==
  LET using == {t \in SeqToSet(ev.tasks) : q.p \in Uses(t)}
      asked == SeqToSet(q.tasks)
  IN /\ asked \subseteq {t.name : t \in using}
     /\ \A t \in using : OkBy(t, Uses(t) \ {q.p}) => t.name \in asked

TInit == l = 1
Decide ==
  /\ ev.e = "decide"
  /\ ev.ret = "OK"
  /\ Len(ev.out) = Len(ev.tasks)
  /\ \A i \in 1..Len(ev.tasks) :
       /\ ev.out[i].name = ev.tasks[i].name
       /\ ev.out[i].w = IF OkBy(ev.tasks[i], Uses(ev.tasks[i])) THEN 1 ELSE 0
  /\ \A i \in 1..Len(ev.asks) : AskedWell(ev.asks[i])
TNext == l <= Len(Trace) /\ l' = l + 1 /\ (ev.e = "reset" \/ Decide)

TSpec == TInit /\ [][TNext]_l
Constr == Track(l)
Post == Report
=============================================================================
