-------------------------- MODULE InterruptTrace --------------------------
EXTENDS TraceLib, Interrupt

VARIABLES l, g, x, at
tvars == <<rvars, l, g, x, at>>
ev == Trace[l]
Is(e) == l <= Len(Trace) /\ ev.e = e /\ l' = l + 1
Keep == UNCHANGED <<g, x, at>>
\* Waiting periods are never cut short (2 ms for differing clocks).
Slack == 2

TInit == l = 1 /\ RInit /\ g = 0 /\ x = 0 /\ at = [c \in {} |-> 0]
TNext ==
  \/ /\ Is("reset") /\ ph' = [c \in {} |-> ""] /\ body' = [c \in {} |-> ""] /\ res' = [c \in {} |-> ""]
     /\ g' = ev.g /\ x' = ev.x /\ at' = [c \in {} |-> 0]
  \/ Is("run") /\ Call(ev.c) /\ Keep
  \/ Is("poll") /\ Poll(ev.c, ev.r) /\ Keep
  \/ Is("start") /\ Start(ev.c) /\ Keep
  \/ Is("end") /\ End(ev.c, ev.r) /\ Keep
  \/ Is("hook") /\ Hook(ev.c) /\ at' = Put(at, ev.c, ev.t) /\ UNCHANGED <<g, x>>
  \/ /\ Is("diag") /\ Diag(ev.c, ev.k)
     /\ (ev.k = 2 => ev.t - at[ev.c] + Slack >= g)
     /\ (ev.k = 4 => ev.t - at[ev.c] + Slack >= x)
     /\ at' = Put(at, ev.c, ev.t) /\ UNCHANGED <<g, x>>
  \* A result of the call comes back as it is, with its text.
  \/ Is("ret") /\ Return(ev.c, ev.r) /\ (ph[ev.c] = "waiting" => ev.own) /\ Keep
  \/ Is("exit") /\ Exit /\ UNCHANGED rvars /\ Keep
  \/ Is("free") /\ Free /\ UNCHANGED rvars /\ Keep

TSpec == TInit /\ [][TNext]_tvars
Constr == Track(l)
Post == Report
=============================================================================
