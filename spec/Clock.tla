------------------------------- MODULE Clock -------------------------------
(* What users of fcp::Clock observe: waiters are registered with a deadline, *)
(* time is advanced, waiters are woken.                                      *)
(*   now      time shown by the clock                                        *)
(*   pend     registered and not yet woken waiters: id -> record             *)
(*              dl    deadline                                               *)
(*              seq   position among registrations                           *)
(*              ret   position at which the registering call returned (0 =   *)
(*                    still running)                                         *)
(*              inst  the advance call that made it due (0 = none, or it was *)
(*                    registered late)                                       *)
(*   calls    clock calls that are running (bag as a number)                 *)
(*   n        number of events so far                                        *)
EXTENDS Naturals, Integers, FiniteSets, TLC

VARIABLES now, pend, calls, n, woken
cvars == <<now, pend, calls, n, woken>>

Empty == [x \in {} |-> 0]
CInit(t) == now = t /\ pend = Empty /\ calls = 0 /\ n = 1 /\ woken = {}

Without(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]

\* A registration call starts.
RegCallEff(w, dl) ==
  /\ pend' = pend @@ (w :> [dl |-> dl, seq |-> n, ret |-> 0, inst |-> 0])
  /\ calls' = calls + 1 /\ n' = n + 1 /\ UNCHANGED <<now, woken>>
RegCall(w, dl) == w \notin DOMAIN pend /\ w \notin woken /\ RegCallEff(w, dl)

Due(t) == {w \in DOMAIN pend : pend[w].dl <= t}

\* No clock call is running any more: nothing that is due may be left over.
Settled(c) == c = 0 => Due(now) = {}

RegRetEff(w) ==
  /\ calls' = calls - 1 /\ n' = n + 1
  /\ pend' = IF w \in DOMAIN pend THEN [pend EXCEPT ![w].ret = n] ELSE pend
  /\ UNCHANGED <<now, woken>>
RegRet(w) == Settled(calls - 1) /\ RegRetEff(w)

\* A call that sets the time starts.  Waiters whose registration is complete
\* and which become due by it are due "together".
SetCallEff(t) ==
  /\ now' = t /\ calls' = calls + 1 /\ n' = n + 1 /\ UNCHANGED woken
  /\ pend' = [w \in DOMAIN pend |->
       IF pend[w].ret > 0 /\ pend[w].inst = 0 /\ pend[w].dl > now /\ pend[w].dl <= t
       THEN [pend[w] EXCEPT !.inst = n] ELSE pend[w]]
SetCall(t) == SetCallEff(t)

SetRetEff == calls' = calls - 1 /\ n' = n + 1 /\ UNCHANGED <<now, pend, woken>>
SetRet == Settled(calls - 1) /\ SetRetEff

\* a must be woken before b.
Before(a, b) ==
  /\ pend[a].inst > 0 /\ pend[a].inst = pend[b].inst
  /\ \/ pend[a].dl < pend[b].dl
     \/ pend[a].dl = pend[b].dl /\ pend[a].ret < pend[b].seq

WakeEff(w) == /\ pend' = Without(pend, w) /\ woken' = woken \cup {w}
              /\ n' = n + 1 /\ UNCHANGED <<now, calls>>
\* seen: the time the waiter reads from the clock while being woken.
Wake(w, seen) ==
  /\ w \in DOMAIN pend
  /\ pend[w].dl <= seen
  /\ calls > 0
  /\ \A a \in DOMAIN pend : ~Before(a, w)
  /\ WakeEff(w)
=============================================================================
