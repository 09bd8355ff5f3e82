------------------------------- MODULE Elig -------------------------------
(* Eligibility: when does a policy allow a task, given the history of runs?  *)
(* A history is a sequence of contributions [task, t, ok, idx]: ok iff the   *)
(* result upload was started and not aborted by the server, idx the          *)
(* separation index recorded with it (-1: none).                             *)
EXTENDS Integers, Sequences

EMin(a, b) == IF a < b THEN a ELSE b

Good(hist, names) == {i \in 1..Len(hist) : hist[i].ok /\ hist[i].task \in names}
Latest(S) == CHOOSE i \in S : \A j \in S : j <= i

Trusted(ett, now, period) == now - ett >= period

\* group: the policy covers all tasks in matched together, otherwise each task for itself.
SworOk(p, task, hist, ett, now) ==
  /\ Trusted(ett, now, p.period)
  /\ p.group # "bad"
  /\ \A i \in Good(hist, IF p.group = "set" THEN p.matched ELSE {task}) : now - hist[i].t > p.period

SepOk(p, task, hist, ett, now, trust) ==
  /\ (trust /\ p.period # 0) => Trusted(ett, now, p.period)
  /\ LET S == Good(hist, {task}) IN
     S = {} \/ LET c == hist[Latest(S)] IN c.idx = -1 \/ p.cur - c.idx > p.sep

\* avail examples come before the end, an error after failat of them.
DataOk(p, query) ==
  /\ p.handled /\ p.created
  /\ IF query /\ p.query THEN p.parses /\ p.count >= p.min
                         ELSE EMin(p.avail, p.failat) >= p.min

TfOk(p, task) == p.ran /\ task \in p.allowed

Version(k, f) == CASE k = "data" -> IF f.query THEN 2 ELSE 1
                   [] k = "swor" -> 1
                   [] k = "tf" -> 1
                   [] k = "sep" -> IF f.trust THEN 2 ELSE 1
                   [] OTHER -> -1
Supported(p, f) == p.k # "unknown" /\ Version(p.k, f) >= p.v

PolicyOk(p, task, hist, ett, now, f) ==
  CASE p.k = "swor" -> SworOk(p, task, hist, ett, now)
    [] p.k = "sep" -> SepOk(p, task, hist, ett, now, f.trust)
    [] p.k = "data" -> DataOk(p, f.query)
    [] p.k = "tf" -> TfOk(p, task)
    [] OTHER -> FALSE

\* uses: the set of policy numbers attached to the task.
Eligible(policies, uses, task, hist, ett, now, f) ==
  \A i \in uses : Supported(policies[i], f) /\ PolicyOk(policies[i], task, hist, ett, now, f)
=============================================================================
