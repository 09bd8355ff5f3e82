--------------------------- MODULE AttestLogTrace ---------------------------
EXTENDS TraceLib, AttestLog
VARIABLES l, s
ev == Trace[l]
TInit == l = 1 /\ s = New
Reset == l <= Len(Trace) /\ ev.e = "reset" /\ l' = l + 1 /\ s' = New
Event == l <= Len(Trace) /\ ev.e # "reset" /\ l' = l + 1 /\ \E n \in Steps(s, ev) : s' = n
TNext == Reset \/ Event
TSpec == TInit /\ [][TNext]_<<l, s>>
Constr == Track(l)
Post == Report
=============================================================================
