---------------------------- MODULE StopwatchImpl ----------------------------
(* The stopwatch as built: a count of the threads for which it runs, the time *)
(* the count last rose from zero, and the sum of the closed spans; each call  *)
(* is one step under a lock.  What threads see is fed to the monitor.         *)
EXTENDS Stopwatch
CONSTANTS Threads, MaxTime, MaxOps, Bug

VARIABLES clock, n, since, prev, own, pc, runs, val, left, ms
vars == <<clock, n, since, prev, own, pc, runs, val, left, ms>>
Never == 1000

Init == /\ clock = 0 /\ n = 0 /\ since = Never /\ prev = 0
        /\ own = [t \in Threads |-> 0] /\ pc = [t \in Threads |-> "idle"]
        /\ runs = [t \in Threads |-> FALSE] /\ val = [t \in Threads |-> 0]
        /\ left = MaxOps /\ ms = {New}

Feed(e) == ms' = UNION {Steps(m, e) : m \in ms}
Tick == clock < MaxTime /\ clock' = clock + 1 /\ UNCHANGED <<n, since, prev, own, pc, runs, val, left, ms>>

Call(t, op) ==
  /\ pc[t] = "idle" /\ left > 0 /\ left' = left - 1
  /\ CASE op = "start" -> ~runs[t] [] op = "stop" -> runs[t] [] OTHER -> TRUE
  /\ pc' = [pc EXCEPT ![t] = op]
  /\ Feed([e |-> op \o "_call", t |-> t, at |-> clock])
  /\ UNCHANGED <<clock, n, since, prev, own, runs, val>>

Start(t) ==
  /\ pc[t] = "start" /\ pc' = [pc EXCEPT ![t] = "start_ret"]
  /\ n' = n + 1
  /\ since' = IF n = 0 \/ Bug = "restart" THEN clock ELSE since
  /\ own' = [own EXCEPT ![t] = clock]
  /\ runs' = [runs EXCEPT ![t] = TRUE]
  /\ UNCHANGED <<clock, prev, val, left, ms>>

Stop(t) ==
  /\ pc[t] = "stop" /\ pc' = [pc EXCEPT ![t] = "stop_ret"]
  /\ n' = n - 1
  /\ IF Bug = "sum" THEN prev' = prev + (clock - own[t]) /\ since' = (IF n = 1 THEN Never ELSE since)
     ELSE IF n = 1 \/ (Bug = "first" /\ since # Never)
     THEN prev' = prev + (clock - since) /\ since' = (IF Bug = "open" THEN since ELSE Never)
     ELSE UNCHANGED <<prev, since>>
  /\ runs' = [runs EXCEPT ![t] = FALSE]
  /\ UNCHANGED <<clock, own, val, left, ms>>

Total(t) ==
  /\ pc[t] = "total" /\ pc' = [pc EXCEPT ![t] = "total_ret"]
  /\ val' = [val EXCEPT ![t] = IF since = Never \/ Bug = "closed" THEN prev ELSE prev + (clock - since)]
  /\ UNCHANGED <<clock, n, since, prev, own, runs, left, ms>>

Ret(t) ==
  /\ pc[t] \in {"start_ret", "stop_ret", "total_ret"}
  /\ Feed([e |-> pc[t], t |-> t, at |-> clock, v |-> val[t]])
  /\ pc' = [pc EXCEPT ![t] = "idle"] /\ val' = [val EXCEPT ![t] = 0]
  /\ UNCHANGED <<clock, n, since, prev, own, runs, left>>

Next == \/ Tick
        \/ \E t \in Threads : (\E op \in {"start", "stop", "total"} : Call(t, op)) \/ Start(t) \/ Stop(t) \/ Total(t) \/ Ret(t)
Spec == Init /\ [][Next]_vars
Right == ms # {}
=============================================================================
