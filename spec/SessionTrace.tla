---------------------------- MODULE SessionTrace ----------------------------
EXTENDS TraceLib, Session

VARIABLES l, s
ev == Trace[l]
Is(e) == l <= Len(Trace) /\ ev.e = e /\ l' = l + 1
TInit == l = 1 /\ s = New(FALSE, {}, <<0, 0>>, <<0, 0>>)
Reset == Is("reset") /\ s' = New(ev.conf, SeqToSet(ev.perm), <<ev.tsecs, ev.tj>>, <<ev.psecs, ev.pj>>)
Event == /\ l <= Len(Trace) /\ ev.e \notin {"reset", "pick", "delay", "left"} /\ l' = l + 1
         /\ \E n \in Steps(s, ev) : s' = n
\* Choosing a moment from a range, used by itself: got was seen in [t0, t1].
Pick == /\ Is("pick") /\ UNCHANGED s
        /\ LET lo == Max(0, ev.min) hi == Max(lo, ev.max) IN ev.got + ev.t1 >= lo - 2 + ev.t0 /\ ev.got <= hi + 2
Delay == Is("delay") /\ UNCHANGED s /\ ev.min = ev.max /\ ev.min >= 0 /\ Jitter(<<ev.target, ev.j>>, ev)
Left == Is("left") /\ UNCHANGED s /\ ev.min = ev.max /\ ev.min >= 0
        /\ ev.min <= Max(0, ev.moment - ev.t0) + 1 /\ ev.min >= Max(0, ev.moment - ev.t1) - 1
TNext == Reset \/ Event \/ Pick \/ Delay \/ Left
TSpec == TInit /\ [][TNext]_<<l, s>>
Constr == Track(l)
Post == Report
=============================================================================
