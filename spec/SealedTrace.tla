----------------------------- MODULE SealedTrace -----------------------------
EXTENDS TraceLib, Envelope
P == INSTANCE Payload
C == INSTANCE Cose

VARIABLES l, s
ev == Trace[l]
TInit == l = 1 /\ s = New
Reset == l <= Len(Trace) /\ ev.e = "reset" /\ l' = l + 1 /\ s' = New
Stateless == [k \in {"decode", "okp", "sym", "okpenc", "symenc", "cwtenc", "cwt"} |-> 0]
Plain == /\ l <= Len(Trace) /\ ev.e \in DOMAIN Stateless /\ l' = l + 1 /\ UNCHANGED s
         /\ CASE ev.e = "decode" -> P!Decodes(ev) [] ev.e = "okp" -> C!Okp(ev) [] ev.e = "sym" -> C!Sym(ev)
              [] ev.e = "okpenc" -> C!OkpEnc(ev) [] ev.e = "symenc" -> C!SymEnc(ev) [] ev.e = "cwtenc" -> C!CwtEnc(ev)
              [] ev.e = "cwt" -> C!Cwt(ev)
Event == /\ l <= Len(Trace) /\ ev.e # "reset" /\ ev.e \notin DOMAIN Stateless /\ l' = l + 1
         /\ \E n \in Steps(s, ev) : s' = n
TNext == Reset \/ Plain \/ Event
TSpec == TInit /\ [][TNext]_<<l, s>>
Constr == Track(l)
Post == Report
=============================================================================
