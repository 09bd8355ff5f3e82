----------------------------- MODULE ClockImpl -----------------------------
(* The dispatch algorithm of fcp/base/clock.cc, one action per critical      *)
(* section, run by several threads at once.  Checked: every step it takes is *)
(* a step that Clock.tla allows, and waiters are never lost.                 *)
EXTENDS Clock, Sequences

CONSTANTS Threads, Waiters, MaxTime, Advancer

VARIABLES pc, buckets, level, batch, regw, todo
ivars == <<pc, buckets, level, batch, regw, todo>>
vars == <<cvars, ivars>>

Idle == "idle"

Init ==
  /\ CInit(0)
  /\ pc = [t \in Threads |-> Idle]
  /\ buckets = {}               \* pending_waiters_: set of <<deadline, order, waiter>>
  /\ level = 0                  \* dispatch_level_
  /\ batch = [t \in Threads |-> <<>>]
  /\ regw = [t \in Threads |-> ""]
  /\ todo = Waiters             \* not registered yet

\* WakeupWithDeadline: the call starts and inserts.
Register(t) ==
  /\ pc[t] = Idle
  /\ \E w \in todo, dl \in 0..MaxTime :
       /\ RegCallEff(w, dl)
       /\ todo' = todo \ {w}
       /\ regw' = [regw EXCEPT ![t] = w]
       /\ buckets' = buckets \cup {<<dl, n, w>>}
       /\ pc' = [pc EXCEPT ![t] = "check"]
       /\ UNCHANGED <<level, batch>>

Advance(t) ==
  /\ pc[t] = Idle /\ t = Advancer /\ now < MaxTime
  /\ \E x \in (now + 1)..MaxTime : SetCallEff(x)
  /\ regw' = [regw EXCEPT ![t] = "advance"]
  /\ pc' = [pc EXCEPT ![t] = "check"]
  /\ UNCHANGED <<buckets, level, batch, todo>>

CheckReentrancy(t) ==
  /\ pc[t] = "check"
  /\ level' = level + 1
  /\ pc' = [pc EXCEPT ![t] = IF level + 1 > 1 THEN "ret" ELSE "get"]
  /\ UNCHANGED <<cvars, buckets, batch, regw, todo>>

RECURSIVE Sort(_)
Less(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
Sort(S) == IF S = {} THEN <<>>
           ELSE LET m == CHOOSE a \in S : \A b \in S : a = b \/ Less(a, b)
                IN <<m>> \o Sort(S \ {m})

GetExpired(t) ==
  /\ pc[t] = "get"
  /\ LET due == {b \in buckets : b[1] <= now} IN
       /\ batch' = [batch EXCEPT ![t] = Sort(due)]
       /\ buckets' = buckets \ due
  /\ pc' = [pc EXCEPT ![t] = "wake"]
  /\ UNCHANGED <<cvars, level, regw, todo>>

WakeOne(t) ==
  /\ pc[t] = "wake" /\ batch[t] # <<>>
  /\ WakeEff(Head(batch[t])[3])
  /\ batch' = [batch EXCEPT ![t] = Tail(@)]
  /\ UNCHANGED <<pc, buckets, level, regw, todo>>

\* A waiter registers another one while being woken: nested call.
Nested(t) ==
  /\ pc[t] = "wake"
  /\ \E w \in todo, dl \in 0..MaxTime :
       /\ pend' = pend @@ (w :> [dl |-> dl, seq |-> n, ret |-> n, inst |-> 0])
       /\ n' = n + 1 /\ UNCHANGED <<now, calls, woken>>
       /\ todo' = todo \ {w}
       /\ buckets' = buckets \cup {<<dl, n, w>>}
  /\ level' = level + 1
  /\ UNCHANGED <<pc, batch, regw>>

Finish(t) ==
  /\ pc[t] = "wake" /\ batch[t] = <<>>
  /\ level' = 0
  /\ pc' = [pc EXCEPT ![t] =
       IF buckets # {} /\ (level > 1 \/ \E b \in buckets : b[1] <= now) THEN "check" ELSE "ret"]
  /\ UNCHANGED <<cvars, buckets, batch, regw, todo>>

Return(t) ==
  /\ pc[t] = "ret"
  /\ IF regw[t] = "advance" THEN SetRetEff ELSE RegRetEff(regw[t])
  /\ regw' = [regw EXCEPT ![t] = ""]
  /\ pc' = [pc EXCEPT ![t] = Idle]
  /\ UNCHANGED <<buckets, level, batch, todo>>

Step(t) == Register(t) \/ Advance(t) \/ CheckReentrancy(t) \/ GetExpired(t)
           \/ WakeOne(t) \/ Nested(t) \/ Finish(t) \/ Return(t)
Next == \E t \in Threads : Step(t)
Spec == Init /\ [][Next]_vars
        /\ \A t \in Threads : WF_vars(CheckReentrancy(t) \/ GetExpired(t) \/ WakeOne(t) \/ Finish(t) \/ Return(t))

(* Refinement: each change of the observable state is an allowed one. *)
AbsNext ==
  \/ \E w \in Waiters, dl \in 0..MaxTime : RegCall(w, dl)
  \/ \E w \in Waiters, dl \in 0..MaxTime :
        w \notin DOMAIN pend /\ w \notin woken
        /\ pend' = pend @@ (w :> [dl |-> dl, seq |-> n, ret |-> n, inst |-> 0])
        /\ n' = n + 1 /\ UNCHANGED <<now, calls, woken>>
  \/ \E w \in Waiters : RegRet(w)
  \/ \E t \in 0..MaxTime : SetCall(t)
  \/ SetRet
  \/ \E w \in Waiters : Wake(w, now)
Refines == [][AbsNext]_cvars

Quiescent == (\A t \in Threads : pc[t] = Idle) => Due(now) = {} /\ calls = 0 /\ level = 0
Accounted == DOMAIN pend = {b[3] : b \in buckets}
             \cup UNION {{batch[t][i][3] : i \in 1..Len(batch[t])} : t \in Threads}
AllWoken == \A w \in Waiters : (w \in DOMAIN pend /\ pend[w].dl <= now) ~> (w \in woken)
=============================================================================
