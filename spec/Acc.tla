-------------------------------- MODULE Acc --------------------------------
(* Observable behaviour of secagg::Accumulator.  Tasks are scheduled, their  *)
(* generators run (in parallel), results are folded into the value one at a  *)
(* time.  A value is the sequence of the tasks folded into it.               *)
EXTENDS Naturals, Sequences, FiniteSets

VARIABLES
  st,     \* task -> [s: "call", "sched", "gen", "made", "comb", "done"; ret: hand-over complete]
  acc,    \* the accumulated value
  comb,   \* the task being folded, or 0
  can,    \* "no", "call", "yes": cancellation
  unobs,  \* work was handed in since the last observation
  obs,    \* observers -> [seen: idle instant since registration, active: to be called]
  cur     \* the observer to be called when work ends, or 0

avars == <<st, acc, comb, can, unobs, obs, cur>>
ANone == [x \in {} |-> 0]
AInit == /\ st = ANone /\ acc = <<>> /\ comb = 0 /\ can = "no" /\ unobs = FALSE /\ obs = ANone /\ cur = 0

AllIn(s) == \A t \in DOMAIN s : s[t].s = "done"
RetDone(s) == \A t \in DOMAIN s : s[t].ret => s[t].s = "done"
Mark(o, q) == [k \in DOMAIN o |-> [o[k] EXCEPT !.seen = @ \/ q]]
SetS(t, x) == [st EXCEPT ![t].s = x]

SchedCall(t) == /\ t \notin DOMAIN st
                /\ st' = [x \in DOMAIN st \cup {t} |-> IF x = t THEN [s |-> "call", ret |-> FALSE] ELSE st[x]]
                /\ unobs' = TRUE /\ UNCHANGED <<acc, comb, can, obs, cur>>
SchedRet(t) == /\ t \in DOMAIN st /\ ~st[t].ret
               /\ st' = [st EXCEPT ![t].ret = TRUE, ![t].s = IF @ = "call" THEN "sched" ELSE @]
               /\ UNCHANGED <<acc, comb, can, unobs, obs, cur>>
\* A cancelled accumulator starts nothing more.
GenStart(t) == /\ t \in DOMAIN st /\ st[t].s \in {"call", "sched"} /\ can # "yes"
               /\ st' = SetS(t, "gen") /\ UNCHANGED <<acc, comb, can, unobs, obs, cur>>
GenEnd(t) == /\ t \in DOMAIN st /\ st[t].s = "gen" /\ can # "yes"
             /\ st' = SetS(t, "made") /\ UNCHANGED <<acc, comb, can, unobs, obs, cur>>
CombStart(a, t) == /\ comb = 0 /\ a = acc /\ t \in DOMAIN st /\ st[t].s = "made" /\ can # "yes"
                   /\ comb' = t /\ st' = SetS(t, "comb") /\ UNCHANGED <<acc, can, unobs, obs, cur>>
CombEnd(t) == /\ comb = t /\ can # "yes" /\ acc' = Append(acc, t) /\ comb' = 0
              /\ st' = SetS(t, "done") /\ obs' = Mark(obs, RetDone(st'))
              /\ UNCHANGED <<can, unobs, cur>>

\* Observers.  ex: calls are not overlapped by work on other threads, so the
\* answer is determined.
ObsCall(k) == /\ k \notin DOMAIN obs
              /\ obs' = [x \in DOMAIN obs \cup {k} |-> IF x = k THEN [seen |-> RetDone(st), active |-> TRUE] ELSE obs[x]]
              /\ UNCHANGED <<st, acc, comb, can, unobs, cur>>
\* Registration answers whether there was work since the last observation.
\* An accepted observer replaces one that is still waiting.
ObsRetExact(k, r) ==
  /\ k \in DOMAIN obs /\ r = unobs
  /\ unobs' = IF r /\ AllIn(st) THEN FALSE ELSE unobs
  /\ cur' = IF r /\ ~AllIn(st) THEN k ELSE cur
  /\ obs' = [x \in DOMAIN obs |-> [obs[x] EXCEPT !.active = IF x = k THEN r ELSE IF r /\ ~AllIn(st) /\ x = cur THEN FALSE ELSE @]]
  /\ UNCHANGED <<st, acc, comb, can>>
ObsRetLoose(k, r) ==
  /\ k \in DOMAIN obs
  /\ obs' = [obs EXCEPT ![k].active = r]
  /\ UNCHANGED <<st, acc, comb, can, unobs, cur>>
Fired(k) == /\ k \in DOMAIN obs /\ obs[k].active /\ obs[k].seen
            /\ obs' = [obs EXCEPT ![k].active = FALSE]
            /\ unobs' = (IF k = cur THEN FALSE ELSE unobs) /\ cur' = (IF k = cur THEN 0 ELSE cur)
            /\ UNCHANGED <<st, acc, comb, can>>

IdleAnswer(r, exact) == /\ (r => RetDone(st)) /\ (exact => (r = AllIn(st)))
                        /\ UNCHANGED avars
Result(v) == /\ comb = 0 /\ v = acc /\ can' = "yes" /\ \A t \in DOMAIN st : st[t].s # "gen"
             /\ UNCHANGED <<st, acc, comb, unobs, obs, cur>>
CancelCall == can' = (IF can = "yes" THEN "yes" ELSE "call") /\ UNCHANGED <<st, acc, comb, unobs, obs, cur>>
\* Cancellation returns when nothing is active.
CancelRet == /\ can \in {"call", "yes"} /\ can' = "yes" /\ comb = 0 /\ \A t \in DOMAIN st : st[t].s # "gen"
             /\ UNCHANGED <<st, acc, comb, unobs, obs, cur>>

\* What holds when nothing more will happen: all folded, all observers called.
Settled == can = "no" => AllIn(st) /\ Len(acc) = Cardinality(DOMAIN st) /\ \A k \in DOMAIN obs : ~obs[k].active
=============================================================================
