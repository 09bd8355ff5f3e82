----------------------------- MODULE MediaTrace -----------------------------
(* Validates recorded calls of the media service. *)
EXTENDS TraceLib, Media
VARIABLES l, ms
ev == Trace[l]
Op(e) == [op |-> e.op, n |-> e.n, f |-> e.f, b |-> e.b]
After(e) ==
  CASE e.e = "call" -> Called(ms, e.t, Op(e))
    [] e.e = "ret" -> Returned(ms, e.t, e.r, e.v)
    [] e.e = "end" -> ms
TInit == l = 1 /\ ms = Start
Reset == l <= Len(Trace) /\ ev.e = "reset" /\ l' = l + 1 /\ ms' = Start
Event == l <= Len(Trace) /\ ev.e # "reset" /\ l' = l + 1 /\ ms' = After(ev) /\ ms' # {}
TNext == Reset \/ Event
TSpec == TInit /\ [][TNext]_<<l, ms>>
Constr == Track(l)
Post == Report
=============================================================================
