------------------------------ MODULE Session ------------------------------
(* What an application and a server see of one federated session: calls of  *)
(* the application, requests reaching the server with what it answered,     *)
(* pauses, verification of a key, and what is returned.  An event is a      *)
(* record; Steps(s, e) is the set of states the session may be in after it, *)
(* empty when the event is not allowed in s.                                 *)
EXTENDS Integers, Sequences, FiniteSets

Codes == {"CANCELLED", "UNKNOWN", "INVALID_ARGUMENT", "DEADLINE_EXCEEDED", "NOT_FOUND", "ALREADY_EXISTS",
          "PERMISSION_DENIED", "RESOURCE_EXHAUSTED", "FAILED_PRECONDITION", "ABORTED", "OUT_OF_RANGE",
          "UNIMPLEMENTED", "INTERNAL", "UNAVAILABLE", "DATA_LOSS", "UNAUTHENTICATED"}
Empty == [x \in {} |-> 0]
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b
Range(q) == {q[i] : i \in 1..Len(q)}

NoOp == [on |-> FALSE, name |-> "", fwd |-> 0, pause |-> 0, slept |-> FALSE]
NoUp == [on |-> FALSE]
\* No call in progress.
Idle == [f |-> ""]
\* conf: confidential aggregation is available; perm: permanent codes; trans, permw: configured windows
New(conf, perm, trans, permw) ==
  [conf |-> conf, perm |-> perm, trans |-> trans, permw |-> permw,
   o |-> "init", known |-> FALSE, acc |-> <<0, 0>>, rej |-> <<0, 0>>,
   sess |-> "", taf |-> -1, due |-> FALSE, multi |-> FALSE, single |-> "", unsure |-> FALSE,
   tasks |-> Empty, c |-> Idle]

\* ------------------------------------------------------------------ calls
\* fin: statuses with which the call may return; {} while more has to happen
Begin(s, e) ==
  LET base == [f |-> e.f, stop |-> e.stop, fin |-> IF e.stop THEN {"CANCELLED"} ELSE {}, what |-> "", sent |-> {},
               op |-> NoOp, opdone |-> FALSE, offered |-> <<>>, fails |-> Empty, cancel |-> "no", abort |-> "no",
               up |-> NoUp, key |-> -1, arg |-> e, owe |-> s.due /\ ~s.multi, ti |-> 0]
  IN CASE e.f = "unknown" -> [s EXCEPT !.c = [base EXCEPT !.fin = {"INVALID_ARGUMENT"}, !.stop = TRUE]]
       [] e.f = "eeterr"  -> [s EXCEPT !.c = [base EXCEPT !.fin = {"OK"}]]
       [] e.f = "multi"   -> [s EXCEPT !.c = base, !.multi = TRUE, !.o = "fail"]
       [] e.f = "checkin" -> [s EXCEPT !.c = base, !.o = "fail"]
       [] e.f = "eet"     -> [s EXCEPT !.c = base, !.o = "fail"]
       [] OTHER           -> [s EXCEPT !.c = base]

\* A reply that cannot be understood is an invalid one.
Code(st) == IF st = "GARBAGE" THEN "INVALID_ARGUMENT" ELSE st
Plain(st) == IF st = "GARBAGE" THEN "OK" ELSE st

Fin(s, set) == [s EXCEPT !.c.fin = set]
Sent(s, k) == [s EXCEPT !.c.sent = @ \cup {k}]

TaskOf(s) == s.tasks[s.c.arg.agg]

\* ------------------------------------------------ operations of the server
\* The operation has been completed with this reply.
Completed(s, r) ==
  LET d == [s EXCEPT !.c.op.on = FALSE, !.c.opdone = TRUE] IN
  IF r.err # "" THEN Fin(d, {r.err})
  ELSE IF r.what = "garbage" THEN Fin(d, {"INVALID_ARGUMENT"})
  ELSE IF s.c.f = "checkin"
       THEN (CASE r.what = "reject"  -> [Fin(d, {"OK"}) EXCEPT !.c.what = "rejected"]
               [] r.what = "unknown" -> Fin(d, {"UNIMPLEMENTED"})
               [] OTHER -> [d EXCEPT !.c.offered = <<r.t>>])
       ELSE [d EXCEPT !.c.up = r, !.c.what = r.what]
\* A reply about the operation: go on polling, or done.
OpReply(s, e) ==
  IF e.st # "OK"
  THEN [Fin(s, {Code(e.st)}) EXCEPT !.c.op.on = FALSE, !.c.cancel = IF @ = "may" THEN "must" ELSE @]
  ELSE IF e.rep.done THEN Completed(s, e.rep)
  ELSE IF ~e.rep.okname THEN [Fin(s, {"INVALID_ARGUMENT"}) EXCEPT !.c.op.on = FALSE]
  ELSE [s EXCEPT !.c.op = [on |-> TRUE, name |-> e.rep.op, fwd |-> e.fwd, pause |-> e.rep.pause, slept |-> FALSE],
                 !.c.cancel = IF s.c.f = "checkin" THEN "may" ELSE @]
\* The pause before asking again: what the server asked for, at most a minute.
PauseOk(p, ms) == /\ ms >= 0 /\ ms <= 60000
                  /\ (p >= 0 => ms = Min(p, 60000))
SleepSteps(s, e) ==
  IF s.c.f # "" /\ s.c.op.on /\ ~s.c.op.slept /\ PauseOk(s.c.op.pause, e.ms)
  THEN {[s EXCEPT !.c.op.slept = TRUE]} ELSE {}
\* The application wants to stop: what is being polled is given up.
StopSteps(s) ==
  IF s.c.f # "" /\ s.c.op.on
  THEN {[Fin(s, {"CANCELLED"}) EXCEPT !.c.stop = TRUE, !.c.op.on = FALSE, !.c.cancel = IF @ = "may" THEN "must" ELSE @]}
  ELSE {}
GetSteps(s, e) ==
  IF /\ s.c.op.on /\ e.op = s.c.op.name /\ e.fwd = s.c.op.fwd
     /\ (s.c.op.slept \/ s.c.op.pause <= 0)
  THEN {OpReply(s, e)} ELSE {}
CancelSteps(s, e) ==
  IF s.c.cancel = "must" /\ e.op = s.c.op.name /\ e.fwd = s.c.op.fwd
  THEN {[s EXCEPT !.c.cancel = "done"]} ELSE {}

\* ------------------------------------------------------------- eligibility
\* The moments to come back are chosen after the reply of time t.
Window(w, t) == <<t + Max(0, w[1]), t + Max(Max(0, w[1]), w[2])>>
EetSteps(s, e) ==
  IF s.c.f = "eet" /\ ~s.c.stop /\ s.c.sent = {} /\ e.fwd = 0
  THEN LET n == Sent(s, "eet") IN
       IF e.st # "OK" THEN {Fin(n, {Code(e.st)})}
       ELSE LET r == e.rep
                k == [n EXCEPT !.known = TRUE, !.acc = Window(r.acc, e.t), !.rej = Window(r.rej, e.t), !.c.ti = e.t]
                m == [k EXCEPT !.sess = r.sess, !.taf = r.taf]
            IN {CASE r.what = "reject" -> [Fin(k, {"OK"}) EXCEPT !.c.what = "rejected"]
                  [] r.what # "reject" /\ r.taf = -1 -> Fin(k, {"INVALID_ARGUMENT"})
                  [] r.what = "none" /\ r.taf # -1 -> [Fin(m, {"OK"}) EXCEPT !.c.what = "disabled"]
                  [] r.what = "unknown" /\ r.taf # -1 -> Fin(m, {"UNIMPLEMENTED"})
                  [] OTHER -> [m EXCEPT !.c.offered = <<[name |-> "eet", badres |-> r.badres, info |-> "ok"]>>,
                                        !.c.what = IF r.spec /\ r.policies = 0 THEN "disabled" ELSE "enabled"]}
  ELSE {}
\* The result of the eligibility task is reported once, along with the first request for tasks.
EetResSteps(s, e) ==
  IF /\ ~s.c.stop /\ e.fwd = 0 /\ e.sess = s.sess /\ s.due /\ "eetres" \notin s.c.sent
     /\ \/ s.c.f \in {"checkin", "multi"} /\ e.code = 0
        \/ s.c.f = "eeterr" /\ e.code = s.c.arg.code
  THEN {[Sent(s, "eetres") EXCEPT !.due = FALSE]} ELSE {}

\* -------------------------------------------------------------- assignment
StartSteps(s, e) ==
  IF /\ s.c.f = "checkin" /\ ~s.c.stop /\ "start" \notin s.c.sent
     /\ e.fwd = s.taf /\ e.sess = s.sess /\ e.info = s.c.arg.info
  THEN {OpReply(Sent(s, "start"), e)} ELSE {}
MultiSteps(s, e) ==
  IF /\ s.c.f = "multi" /\ ~s.c.stop /\ "multi" \notin s.c.sent
     /\ e.fwd = s.taf /\ e.sess = s.sess /\ e.names
  THEN LET n == Sent(s, "multi") IN
       IF e.st # "OK" THEN {Fin(n, {Code(e.st)})}
       ELSE {[n EXCEPT !.c.offered = e.rep.ts, !.c.opdone = TRUE]}
  ELSE {}
\* Resources of what was offered.
FetchSteps(s, e) ==
  IF /\ s.c.f # "" /\ s.c.fin = {}
     /\ \/ \E i \in 1..Len(s.c.offered) : s.c.offered[i].name = e.task
        \/ e.task = "cfg" /\ s.c.what = "upload"
  THEN {IF e.st = "OK" THEN s
        ELSE [s EXCEPT !.c.fails = Put(@, e.task, (IF e.task \in DOMAIN @ THEN @[e.task] ELSE {}) \cup {Code(e.st)})]}
  ELSE {}
Failures(s, n) == IF n \in DOMAIN s.c.fails THEN s.c.fails[n] ELSE {}
\* A task whose description cannot be used.
BadInfo(s, t) == t.fwd = -1 \/ (~s.conf /\ t.kind = "confidential") \/ (s.conf /\ t.kind = "none")
\* How taking this task may fail.
Trouble(s, t) == Failures(s, t.name) \cup (IF t.badres THEN Codes ELSE {}) \cup (IF BadInfo(s, t) THEN {"INVALID_ARGUMENT"} ELSE {})
Took(t, st) == [name |-> t.name, sess |-> t.sess, tok |-> t.tok, kind |-> t.kind, fwd |-> t.fwd, st |-> st]

\* ----------------------------------------------------------------- reports
ReportReqSteps(s, e) ==
  IF /\ s.c.f \in {"report", "notcompleted"} /\ ~s.c.stop /\ "report" \notin s.c.sent
     /\ e.agg = s.c.arg.agg
     /\ LET t == TaskOf(s) IN
        /\ e.fwd = s.taf /\ e.sess = t.sess /\ e.name = t.name
        /\ e.code = IF s.c.f = "report" THEN 0 ELSE s.c.arg.code
  THEN LET n == Sent(s, "report") IN
       {IF s.c.f = "notcompleted" THEN Fin(n, {Plain(e.st)}) ELSE n}
  ELSE {}
UpStartSteps(s, e) ==
  IF /\ s.c.f = "report" /\ ~s.c.stop /\ "begin" \notin s.c.sent
     /\ IF s.c.arg.path = "secure" THEN e.k = "secstart"
        ELSE e.k = "upstart" /\ e.conf = (s.c.arg.path = "confidential")
     /\ e.agg = s.c.arg.agg /\ e.tok = TaskOf(s).tok /\ e.fwd = TaskOf(s).fwd
  THEN {OpReply(Sent(s, "begin"), e)} ELSE {}
UpTrouble(s) == Failures(s, "cfg") \cup (IF s.c.up.badres THEN Codes ELSE {})
                \cup (IF s.c.up.apf = -1 \/ s.c.up.upf = -1 THEN {"INVALID_ARGUMENT"} ELSE {})
\* The start of an upload has been accepted and nothing stands against going on.
Uploading(s) == s.c.f = "report" /\ s.c.what = "upload" /\ s.c.fin = {} /\ "report" \in s.c.sent /\ UpTrouble(s) = {}
VerifySteps(s, e) ==
  IF Uploading(s) /\ s.c.arg.path = "confidential" /\ "verify" \notin s.c.sent /\ e.policy
  THEN {IF e.ok THEN [Sent(s, "verify") EXCEPT !.c.key = e.key]
        ELSE [Fin(Sent(s, "verify"), {"FAILED_PRECONDITION"}) EXCEPT !.c.abort = "must"]}
  ELSE {}
UploadSteps(s, e) ==
  IF /\ Uploading(s) /\ "upload" \notin s.c.sent
     /\ e.fwd = s.c.up.upf /\ e.res = s.c.up.res
     /\ IF s.c.arg.path = "confidential" THEN "verify" \in s.c.sent /\ e.how = "sealed" /\ e.key = s.c.key
        ELSE e.how = "plain"
  THEN LET n == Sent(s, "upload") IN
       {IF Plain(e.st) = "OK" THEN n
        ELSE [Fin(n, {e.st}) EXCEPT !.c.abort = IF e.st = "ABORTED" THEN "no" ELSE "must"]}
  ELSE {}
Token(s) == IF s.c.up.cl = "" /\ s.c.arg.path # "confidential" THEN TaskOf(s).tok ELSE s.c.up.cl
ToAggregation(s, e) == /\ e.agg = s.c.arg.agg /\ e.fwd = s.c.up.apf /\ e.tok = Token(s)
                       /\ e.conf = (s.c.arg.path = "confidential")
SubmitSteps(s, e) ==
  IF /\ Uploading(s) /\ "upload" \in s.c.sent /\ ToAggregation(s, e) /\ e.res = s.c.up.res
  THEN {Fin(Sent(s, "submit"), {Plain(e.st)})} ELSE {}
AbortSteps(s, e) ==
  IF s.c.f = "report" /\ s.c.abort = "must" /\ ToAggregation(s, e)
  THEN {[s EXCEPT !.c.abort = "done"]} ELSE {}
SecaggSteps(s, e) ==
  IF s.c.f = "report" /\ s.c.what = "secagg" /\ s.c.fin = {} /\ "report" \in s.c.sent
     /\ e.n = s.c.up.n /\ e.surviving = s.c.up.surviving
  THEN {Fin(s, {IF e.ok THEN "OK" ELSE "UNAVAILABLE"})} ELSE {}

ReqSteps(s, e) ==
  CASE e.k = "eet" -> EetSteps(s, e)         [] e.k = "eetres" -> EetResSteps(s, e)
    [] e.k = "start" -> StartSteps(s, e)     [] e.k = "multi" -> MultiSteps(s, e)
    [] e.k = "fetch" -> FetchSteps(s, e)     [] e.k = "get" -> GetSteps(s, e)
    [] e.k = "cancel" -> CancelSteps(s, e)   [] e.k = "report" -> ReportReqSteps(s, e)
    [] e.k \in {"upstart", "secstart"} -> UpStartSteps(s, e)
    [] e.k = "upload" -> UploadSteps(s, e)   [] e.k = "submit" -> SubmitSteps(s, e)
    [] e.k = "abort" -> AbortSteps(s, e)     [] OTHER -> {}

\* ---------------------------------------------------------------- returning
Done(s) == s.c.cancel # "must" /\ s.c.abort # "must"
Over(s) == [s EXCEPT !.c = Idle]
\* Outcome of a request for eligibility or tasks that failed.
Failed(s, st) == [Over(s) EXCEPT !.o = IF st \in s.perm THEN "perm" ELSE "fail"]
EetRet(s, e) ==
  LET tr == UNION ({Failures(s, "eet")} \cup {IF s.c.offered # <<>> /\ s.c.offered[1].badres THEN Codes ELSE {}})
      fin == IF s.c.fin # {} THEN s.c.fin ELSE IF "eet" \notin s.c.sent THEN {} ELSE IF tr # {} THEN tr ELSE {"OK"}
      \* the moments were chosen by now
      n == [s EXCEPT !.acc = <<@[1], @[2] + (e.t - s.c.ti)>>, !.rej = <<@[1], @[2] + (e.t - s.c.ti)>>]
  IN IF e.st \notin fin THEN {}
     ELSE IF e.st # "OK" THEN {Failed(n, e.st)}
     ELSE IF e.what = s.c.what /\ e.pay
     THEN {[Over(n) EXCEPT !.o = IF e.what = "rejected" THEN "rej" ELSE "elig", !.due = (e.what = "enabled")]} ELSE {}
\* (an interrupted first request may have taken the report with it)
Unreported(s) == "eetres" \in s.c.sent \/ ~s.c.owe \/ s.c.sent = {}
CheckinRet(s, e) ==
  LET t == s.c.offered[1]
      fin == IF s.c.fin # {} THEN s.c.fin
             ELSE IF s.c.offered = <<>> THEN {} ELSE IF Trouble(s, t) # {} THEN Trouble(s, t) ELSE {"OK"}
  IN IF e.st \notin fin \/ ~Unreported(s) THEN {}
     ELSE IF e.st # "OK" THEN {Failed(s, e.st)}
     ELSE IF s.c.what = "rejected"
     THEN (IF e.what = "rejected" THEN {[Over(s) EXCEPT !.o = "rej"]} ELSE {})
     ELSE IF e.what = "accepted" /\ e.agg = t.agg /\ e.pay
     THEN {[Over(s) EXCEPT !.o = "acc", !.single = t.agg, !.tasks = Put(@, t.agg, Took(t, "open"))]} ELSE {}
\* Each task offered stands or falls by itself.
MultiRet(s, e) ==
  LET off == Range(s.c.offered)
      good == {t \in off : ~BadInfo(s, t)}
      add(st) == [a \in DOMAIN s.tasks \cup {t.agg : t \in good} |->
                    IF a \in DOMAIN s.tasks THEN s.tasks[a]
                    ELSE LET t == CHOOSE x \in good : x.agg = a IN Took(t, st[t.name])]
      lost == [n \in {t.name : t \in off} |-> "lost"]
      u == [Over(s) EXCEPT !.unsure = @ \/ good # off]
  IN IF ~Unreported(s) THEN {}
     ELSE IF s.c.fin # {} THEN (IF e.st \in s.c.fin THEN {Failed(s, e.st)} ELSE {})
     ELSE IF ~s.c.opdone THEN {}
     ELSE IF e.st = "CANCELLED" /\ \E t \in off : "CANCELLED" \in Failures(s, t.name)
     THEN {[Failed(s, e.st) EXCEPT !.tasks = add(lost), !.unsure = u.unsure]}
     ELSE IF /\ e.st = "OK" /\ {r.name : r \in Range(e.ts)} = {t.name : t \in off} /\ Len(e.ts) = Cardinality(off)
             /\ \A r \in Range(e.ts) : LET t == CHOOSE x \in off : x.name = r.name IN
                  IF Trouble(s, t) = {} THEN r.st = "OK" /\ r.agg = t.agg /\ r.pay ELSE r.st \in Trouble(s, t)
     THEN {[u EXCEPT !.o = IF off = {} THEN "rej" ELSE IF good = {} THEN "fail" ELSE "acc",
                     !.tasks = add([n \in {t.name : t \in off} |->
                                      (CHOOSE r \in Range(e.ts) : r.name = n).st]),
                     !.c = Idle]}
     ELSE {}
ReportRet(s, e) ==
  LET sec == s.c.arg.path = "secure"
      fin == IF s.c.fin # {} THEN s.c.fin
             ELSE IF s.c.what = "upload" THEN UpTrouble(s) ELSE {}
      \* both requests are made, unless interrupted first
      made == s.c.sent = {} \/ {"report", "begin"} \subseteq s.c.sent
      st == IF sec \/ "submit" \in s.c.sent THEN "called" ELSE "perm"
  IN IF made /\ e.st \in fin THEN {[Over(s) EXCEPT !.tasks[s.c.arg.agg].st = st]} ELSE {}
RetSteps(s, e) ==
  IF s.c.f = "" \/ ~Done(s) THEN {}
  ELSE CASE s.c.f = "eet" -> EetRet(s, e)
         [] s.c.f = "checkin" -> CheckinRet(s, e)
         [] s.c.f = "multi" -> MultiRet(s, e)
         [] s.c.f = "report" -> ReportRet(s, e)
         [] s.c.f = "notcompleted" -> (IF e.st \in s.c.fin THEN {[Over(s) EXCEPT !.tasks[s.c.arg.agg].st = "called"]} ELSE {})
         [] s.c.f = "eeterr" -> (IF s.c.stop \/ "eetres" \in s.c.sent THEN {Over(s)} ELSE {})
         [] OTHER -> (IF e.st \in s.c.fin THEN {Over(s)} ELSE {})
\* Each task is reported at most once: only an open one may be reported.
CallSteps(s, e) ==
  IF s.c.f # "" THEN {}
  ELSE IF e.f \in {"report", "notcompleted"} /\ ~(e.agg \in DOMAIN s.tasks /\ s.tasks[e.agg].st \in {"open", "OK"}) THEN {}
  ELSE {Begin(s, e)}

\* ------------------------------------------------------------ when to return
Counted(s) == DOMAIN s.tasks
Kinds(s) ==
  CASE s.o = "perm" -> {"P"}
    [] s.o \in {"init", "fail"} -> (IF s.known THEN {"R"} ELSE {"T"})
    [] s.o \in {"rej", "elig"} -> {"R"}
    [] OTHER -> IF ~s.multi THEN (IF s.tasks[s.single].st = "perm" THEN {"P"} ELSE {"A"})
                ELSE (IF \A a \in Counted(s) : s.tasks[a].st = "perm" THEN {"P"}
                      ELSE IF \A a \in Counted(s) : s.tasks[a].st = "called" THEN {"A"}
                      ELSE {"R"})
                     \* a task that could not even be described: counted or not
                     \cup (IF s.unsure THEN {"R"} ELSE {})
\* The chosen moment, seen through a delay of min at some time in [t0, t1].
Narrow(w, e) == IF e.min > 0 THEN <<Max(w[1], e.min + e.t0 - 2), Min(w[2], e.min + e.t1 + 2)>>
                ELSE <<w[1], Min(w[2], e.t1 + 2)>>
Near(w) == w[1] <= w[2] + 4
Jitter(w, e) == e.min >= (w[1] \div 100) * (100 - w[2]) - 2 /\ e.min <= (w[1] \div 100) * (100 + w[2]) + 2
RetrySteps(s, e) ==
  IF s.c.f # "" \/ e.min < 0 \/ e.min # e.max THEN {}
  ELSE {[s EXCEPT !.acc = Narrow(@, e)] : x \in IF "A" \in Kinds(s) /\ Near(Narrow(s.acc, e)) THEN {1} ELSE {}}
       \cup {[s EXCEPT !.rej = Narrow(@, e)] : x \in IF "R" \in Kinds(s) /\ Near(Narrow(s.rej, e)) THEN {1} ELSE {}}
       \cup (IF "T" \in Kinds(s) /\ Jitter(s.trans, e) THEN {s} ELSE {})
       \cup (IF "P" \in Kinds(s) /\ Jitter(s.permw, e) THEN {s} ELSE {})

Steps(s, e) ==
  CASE e.e = "call" -> CallSteps(s, e)     [] e.e = "req" -> (IF s.c.f = "" THEN {} ELSE ReqSteps(s, e))
    [] e.e = "sleep" -> SleepSteps(s, e)   [] e.e = "stop" -> StopSteps(s)
    [] e.e = "verify" -> VerifySteps(s, e) [] e.e = "secagg" -> SecaggSteps(s, e)
    [] e.e = "ret" -> RetSteps(s, e)       [] e.e = "retry" -> RetrySteps(s, e)
    [] OTHER -> {}
=============================================================================
