--------------------------- MODULE SecTransTrace ---------------------------
EXTENDS TraceLib, SecTrans

VARIABLES l, s
ev == Trace[l]
TInit == l = 1 /\ s = New([valid |-> TRUE, ckpt |-> FALSE, ckpth |-> 0, masked |-> "", plain |-> ""])
Reset == /\ l <= Len(Trace) /\ ev.e = "reset" /\ l' = l + 1
         /\ s' = New([valid |-> ev.valid, ckpt |-> ev.ckpt, ckpth |-> ev.ckpth, masked |-> ev.masked, plain |-> ev.plain])
Event == /\ l <= Len(Trace) /\ ev.e # "reset" /\ l' = l + 1 /\ \E n \in Steps(s, ev) : s' = n
TNext == Reset \/ Event
TSpec == TInit /\ [][TNext]_<<l, s>>
Constr == Track(l)
Post == Report
=============================================================================
