---------------------------- MODULE SessionImpl ----------------------------
(* HttpFederatedProtocol: one state for the session, one for each task, the  *)
(* addresses last prescribed, and the polling of operations.  Every request, *)
(* pause and result must be one that Session allows, and the window picked   *)
(* from the states must be the one the outcomes call for.                    *)
EXTENDS Session, TLC

CONSTANTS Kindset,   \* kinds of aggregation offered
          Conf,      \* BOOLEAN: confidential aggregation available
          MaxPolls,  \* unfinished replies per operation
          Rich,      \* BOOLEAN: more kinds of replies
          Many       \* tasks offered at once, at most
Perm == {"UNAVAILABLE"}
Bad == IF Rich THEN {"UNAVAILABLE", "DATA_LOSS", "GARBAGE", "CANCELLED"} ELSE {"UNAVAILABLE", "DATA_LOSS"}
Sts == {"OK"} \cup Bad

VARIABLES s,   \* the session as seen from outside
          ok,  \* no event was disallowed so far
          m    \* the client
vars == <<s, ok, m>>

\* def, map: per task [st, t]; cur: the call in progress
None == [st |-> "Initialized"]
Init == /\ s = New(Conf, Perm, <<0, 0>>, <<0, 0>>) /\ ok = TRUE
        /\ m = [pc |-> "new", os |-> "Initialized", multi |-> FALSE, times |-> FALSE, enabled |-> FALSE, reported |-> FALSE,
                taf |-> -1, def |-> None, map |-> Empty, stop |-> FALSE, polls |-> 0, ctx |-> "", op |-> Empty, up |-> Empty,
                off |-> <<>>, res |-> Empty, who |-> "", path |-> "", calls |-> 0]
Emit(e) == LET n == Steps(s, e) IN ok' = (n # {}) /\ s' = (IF n # {} THEN CHOOSE x \in n : TRUE ELSE s)
Call(f) == [e |-> "call", f |-> f]
Req(k, fwd, st) == [e |-> "req", k |-> k, fwd |-> fwd, st |-> st, t |-> 0]
Ret(st) == [e |-> "ret", st |-> st, t |-> 0]
\* object state after a failure of this status
After(st, failed, perm) == IF Code(st) \in Perm THEN perm ELSE failed

\* ---------------------------------------------------------------- eligibility
EetCall == /\ m.pc = "new"
           /\ \E stop \in BOOLEAN :
                /\ Emit([e |-> "call", f |-> "eet", stop |-> stop])
                /\ m' = [m EXCEPT !.pc = "eet", !.stop = stop, !.os = "EetFailed"]
EetRet_(st, what, m2) == Emit([e |-> "ret", st |-> st, t |-> 0, what |-> what, pay |-> TRUE]) /\ m' = m2
EetStopped == /\ m.pc = "eet" /\ m.stop
              /\ EetRet_("CANCELLED", "", [m EXCEPT !.pc = "end", !.os = After("CANCELLED", "EetFailed", "EetPerm")])
EetReplies == {[acc |-> <<0, 0>>, rej |-> <<0, 0>>, sess |-> "s", taf |-> f, what |-> w, badres |-> b, spec |-> x[1], policies |-> x[2]] :
                 f \in {1, -1}, w \in {"task", "none", "reject", "unknown"}, b \in BOOLEAN, x \in {<<FALSE, 0>>, <<TRUE, 0>>, <<TRUE, 1>>}}
EetReq == /\ m.pc = "eet" /\ ~m.stop
          /\ \E st \in Sts, r \in EetReplies :
               /\ (st # "OK" => r = CHOOSE x \in EetReplies : TRUE)
               /\ (r.what # "task" => ~r.badres /\ ~r.spec)
               /\ Emit([Req("eet", 0, st) EXCEPT !.e = "req"] @@ [rep |-> r])
               /\ m' = [m EXCEPT !.pc = "eethandle", !.up = [st |-> st, r |-> r],
                                 !.times = (st = "OK"), !.taf = IF st = "OK" THEN r.taf ELSE -1]
EetHandle ==
  /\ m.pc = "eethandle"
  /\ LET st == m.up.st r == m.up.r
         fail(c) == EetRet_(c, "", [m EXCEPT !.pc = "end", !.os = After(c, "EetFailed", "EetPerm")])
         good == IF r.spec /\ r.policies = 0 THEN "disabled" ELSE "enabled"
     IN IF st # "OK" THEN fail(Code(st))
        ELSE IF r.what = "reject" THEN EetRet_("OK", "rejected", [m EXCEPT !.pc = "end", !.os = "EetRejected"])
        ELSE IF r.taf = -1 THEN fail("INVALID_ARGUMENT")
        ELSE IF r.what = "none" THEN EetRet_("OK", "disabled", [m EXCEPT !.pc = "idle", !.os = "EetDisabled"])
        ELSE IF r.what = "unknown" THEN fail("UNIMPLEMENTED")
        ELSE IF r.badres THEN fail("INVALID_ARGUMENT")
        ELSE \/ EetRet_("OK", good, [m EXCEPT !.pc = "idle", !.enabled = (good = "enabled"),
                                              !.os = IF good = "enabled" THEN "EetEnabled" ELSE "EetDisabled"])
             \/ \E c \in Bad : /\ Emit([e |-> "req", k |-> "fetch", task |-> "eet", st |-> c, t |-> 0])
                               /\ m' = [m EXCEPT !.pc = "eetfail", !.ctx = Code(c)]
EetFail == m.pc = "eetfail" /\ EetRet_(m.ctx, "", [m EXCEPT !.pc = "end", !.os = After(m.ctx, "EetFailed", "EetPerm")])

\* ------------------------------------------------------------ long operations
Pauses == {-1, 0, 5, 70000}
OpBodies == [op : {"operations/o"}, okname : BOOLEAN, done : {FALSE}, pause : Pauses, err : {""}, what : {""}]
Poll == /\ m.pc = "poll"
        /\ Emit([e |-> "sleep", ms |-> IF m.op.pause < 0 THEN 500 ELSE IF m.op.pause > 60000 THEN 60000 ELSE m.op.pause])
        /\ m' = [m EXCEPT !.pc = "slept"]
\* Interrupted while waiting: the next request is not made.
PollStop == /\ m.pc = "slept" /\ Emit([e |-> "stop"]) /\ m' = [m EXCEPT !.pc = "pollfail", !.ctx = "CANCELLED", !.stop = TRUE]
\* One reply, at the start or to a poll: unfinished, failed, or finished with one of done.
Replies(done) == {[st |-> "OK", rep |-> d] : d \in done}
                 \cup {[st |-> c, rep |-> [op |-> "operations/o", okname |-> TRUE, done |-> FALSE, pause |-> 0, err |-> "", what |-> ""]] : c \in Bad}
                 \cup (IF m.polls < MaxPolls THEN {[st |-> "OK", rep |-> b] : b \in {x \in OpBodies : x.okname \/ x.pause = 0}} ELSE {})
Fin1(w) == [op |-> "operations/o", okname |-> TRUE, done |-> TRUE, pause |-> -1, err |-> "", what |-> w]
Errs == {[Fin1("") EXCEPT !.err = c] : c \in {"UNAVAILABLE", "DATA_LOSS"}} \cup {Fin1("garbage")}
AfterReply(x) ==
  IF x.st # "OK" THEN [m EXCEPT !.pc = "pollfail", !.ctx = Code(x.st), !.op = IF m.pc = "slept" THEN @ ELSE Empty]
  ELSE IF x.rep.done
       THEN (IF x.rep.err # "" THEN [m EXCEPT !.pc = "operr", !.ctx = x.rep.err]
             ELSE IF x.rep.what = "garbage" THEN [m EXCEPT !.pc = "operr", !.ctx = "INVALID_ARGUMENT"]
             ELSE [m EXCEPT !.pc = "opdone", !.up = x.rep])
  ELSE IF ~x.rep.okname THEN [m EXCEPT !.pc = "operr", !.ctx = "INVALID_ARGUMENT"]
  ELSE [m EXCEPT !.pc = "poll", !.op = x.rep, !.polls = @ + 1]

Tasks == {[name |-> n, agg |-> "a" \o n, sess |-> "s" \o n, tok |-> "t" \o n, kind |-> k, fwd |-> f, badres |-> b] :
            n \in {"x"}, k \in Kindset, f \in {2, -1}, b \in BOOLEAN}
DoneCheckin == Errs \cup {Fin1("reject"), Fin1("unknown")}
               \cup {Fin1("task") @@ [t |-> t] : t \in Tasks}
DoneUpload == Errs \cup {Fin1("upload") @@ [apf |-> a, upf |-> u, res |-> "r", cl |-> c, badres |-> b, conf |-> (m.path = "confidential")] :
                           a \in {3, -1}, u \in {4, -1}, c \in {"", "c"}, b \in IF m.path = "confidential" THEN BOOLEAN ELSE {FALSE}}
DoneSecagg == Errs \cup {Fin1("secagg") @@ [n |-> 5, surviving |-> 3]}

\* ------------------------------------------------------------------ check-in
Legal == m.os \in {"EetDisabled", "EetEnabled", "MultiAccepted", "MultiFailed", "MultiPerm", "MultiNoTask"}
CheckinCall == /\ m.pc = "idle" /\ Legal /\ m.calls < 2
               /\ \E stop \in BOOLEAN :
                    /\ Emit([e |-> "call", f |-> "checkin", info |-> "i", stop |-> stop])
                    /\ m' = [m EXCEPT !.pc = "checkin", !.stop = stop, !.os = "CheckinFailed", !.polls = 0, !.op = Empty, !.calls = @ + 1]
CheckinStopped == /\ m.pc = "checkin" /\ m.stop
                  /\ Emit(Ret("CANCELLED"))
                  /\ m' = [m EXCEPT !.pc = "idle", !.reported = TRUE]
\* The report of the eligibility result travels along, first or second.
EetRes(pc, next) == /\ m.pc = pc /\ ~m.stop /\ m.enabled /\ ~m.reported
                    /\ Emit([e |-> "req", k |-> "eetres", fwd |-> 0, sess |-> "s", code |-> 0, st |-> "OK", t |-> 0])
                    /\ m' = [m EXCEPT !.reported = TRUE, !.pc = next]
CheckinEet == EetRes("checkin", "checkin")
CheckinReq == /\ m.pc = "checkin" /\ ~m.stop /\ (m.enabled => m.reported)
              /\ \E x \in Replies(DoneCheckin) :
                   /\ Emit([e |-> "req", k |-> "start", fwd |-> m.taf, sess |-> "s", info |-> "i", st |-> x.st, rep |-> x.rep, t |-> 0])
                   /\ m' = [AfterReply(x) EXCEPT !.who = "checkin"]
CheckinGet == /\ m.pc = "slept" /\ m.who = "checkin"
              /\ \E x \in Replies(DoneCheckin) :
                   /\ Emit([e |-> "req", k |-> "get", fwd |-> m.taf, op |-> m.op.op, st |-> x.st, rep |-> x.rep, t |-> 0])
                   /\ m' = AfterReply(x)
CheckinCancel == /\ m.pc = "pollfail" /\ m.who = "checkin" /\ m.op # Empty
                 /\ Emit([e |-> "req", k |-> "cancel", fwd |-> m.taf, op |-> m.op.op, st |-> "OK", t |-> 0])
                 /\ m' = [m EXCEPT !.pc = "operr"]
CheckinErr == /\ m.who = "checkin" /\ (m.pc = "operr" \/ (m.pc = "pollfail" /\ m.op = Empty))
              /\ Emit(Ret(m.ctx)) /\ m' = [m EXCEPT !.pc = "idle", !.os = After(m.ctx, "CheckinFailed", "CheckinPerm")]
Unusable(t) == t.fwd = -1 \/ (~Conf /\ t.kind = "confidential") \/ (Conf /\ t.kind = "none")
CheckinDone ==
  /\ m.pc = "opdone" /\ m.who = "checkin"
  /\ LET r == m.up
         fail(c) == Emit(Ret(c)) /\ m' = [m EXCEPT !.pc = "idle", !.os = After(c, "CheckinFailed", "CheckinPerm")]
     IN CASE r.what = "reject" -> Emit(Ret("OK") @@ [what |-> "rejected", agg |-> "", pay |-> TRUE])
                                  /\ m' = [m EXCEPT !.pc = "idle", !.os = "CheckinRejected"]
          [] r.what = "unknown" -> fail("UNIMPLEMENTED")
          [] OTHER -> IF r.t.badres \/ Unusable(r.t) THEN fail("INVALID_ARGUMENT")
                      ELSE \/ /\ Emit(Ret("OK") @@ [what |-> "accepted", agg |-> r.t.agg, pay |-> TRUE])
                              /\ m' = [m EXCEPT !.pc = "idle", !.os = "CheckinAccepted", !.def = [st |-> "Accepted", t |-> r.t]]
                           \/ \E c \in Bad : /\ Emit([e |-> "req", k |-> "fetch", task |-> r.t.name, st |-> c, t |-> 0])
                                             /\ m' = [m EXCEPT !.pc = "operr", !.ctx = Code(c)]

\* --------------------------------------------------------- several tasks at once
MultiCall == /\ m.pc = "idle" /\ m.os \in {"EetDisabled", "EetEnabled"}
             /\ \E stop \in BOOLEAN :
                  /\ Emit([e |-> "call", f |-> "multi", stop |-> stop])
                  /\ m' = [m EXCEPT !.pc = "multi", !.stop = stop, !.os = "MultiFailed", !.multi = TRUE, !.calls = @ + 1]
MultiStopped == /\ m.pc = "multi" /\ m.stop /\ Emit(Ret("CANCELLED"))
                /\ m' = [m EXCEPT !.pc = "idle", !.reported = TRUE]
MultiEet == EetRes("multi", "multi")
MTask(i, k, f, b) == [name |-> ToString(i), agg |-> "m" \o ToString(i), sess |-> "s" \o ToString(i), tok |-> "t" \o ToString(i), kind |-> k, fwd |-> f, badres |-> b]
Offers == UNION {{[i \in 1..n |-> MTask(i, f[i][1], f[i][2], f[i][3])] : f \in [1..n -> Kindset \X {5, -1} \X BOOLEAN]} : n \in 0..Many}
MultiReq == /\ m.pc = "multi" /\ ~m.stop /\ (m.enabled => m.reported)
            /\ \E st \in Sts, off \in Offers :
                 /\ (st # "OK" => off = <<>>)
                 /\ Emit([e |-> "req", k |-> "multi", fwd |-> m.taf, sess |-> "s", names |-> TRUE, st |-> st, rep |-> [ts |-> off], t |-> 0])
                 /\ m' = [m EXCEPT !.pc = IF st = "OK" THEN "mfetch" ELSE "mfail", !.ctx = Code(st), !.off = off, !.res = Empty,
                            \* tasks are remembered before their resources are fetched
                            !.map = [a \in {off[i].agg : i \in {j \in 1..Len(off) : ~Unusable(off[j])}} |->
                                       [st |-> "Accepted", t |-> CHOOSE t \in Range(off) : t.agg = a]]]
MultiFail == /\ m.pc = "mfail" /\ Emit(Ret(m.ctx)) /\ m' = [m EXCEPT !.pc = "idle", !.os = After(m.ctx, "MultiFailed", "MultiPerm")]
\* Fetching may fail task by task.
Fetchable == {i \in 1..Len(m.off) : ~Unusable(m.off[i]) /\ ~m.off[i].badres /\ ToString(i) \notin DOMAIN m.res}
MultiFetch == /\ m.pc = "mfetch" /\ Fetchable # {}
              /\ LET i == CHOOSE i \in Fetchable : TRUE IN
                 \E c \in Sts \ {"CANCELLED", "GARBAGE"} :
                   IF c = "OK" THEN m' = [m EXCEPT !.res = Put(@, ToString(i), "OK")] /\ UNCHANGED <<s, ok>>
                   ELSE Emit([e |-> "req", k |-> "fetch", task |-> ToString(i), st |-> c, t |-> 0])
                        /\ m' = [m EXCEPT !.res = Put(@, ToString(i), c)]
MultiRet_ == /\ m.pc = "mfetch" /\ Fetchable = {}
             /\ Emit(Ret("OK") @@ [ts |-> [i \in 1..Len(m.off) |->
                  [name |-> m.off[i].name, agg |-> m.off[i].agg, pay |-> TRUE,
                   st |-> IF Unusable(m.off[i]) \/ m.off[i].badres THEN "INVALID_ARGUMENT" ELSE m.res[ToString(i)]]]])
             /\ m' = [m EXCEPT !.pc = "idle",
                        !.res = [n \in {m.off[i].agg : i \in {j \in 1..Len(m.off) : ~Unusable(m.off[j]) /\ ~m.off[j].badres /\ m.res[ToString(j)] = "OK"}} |-> 0],
                        !.os = IF m.off = <<>> THEN "MultiNoTask" ELSE IF DOMAIN m.map = {} THEN "MultiFailed" ELSE "MultiAccepted"]

\* -------------------------------------------------------------------- reports
Open == (IF m.def.st = "Accepted" THEN {m.def.t.agg} ELSE {}) \cup {a \in DOMAIN m.map : m.map[a].st = "Accepted" /\ a \in DOMAIN m.res}
Info(a) == IF a \in DOMAIN m.map THEN m.map[a].t ELSE m.def.t
Mark(x, a, st) == IF a \in DOMAIN x.map THEN [x EXCEPT !.map[a].st = st] ELSE [x EXCEPT !.def.st = st]
PathOf(t) == IF Conf THEN {t.kind} ELSE IF t.kind = "secure" THEN {"secure", "simple"} ELSE {"simple"}
ReportCall == /\ m.pc = "idle"
              /\ \E a \in Open, stop \in BOOLEAN : \E p \in PathOf(Info(a)) :
                   /\ Emit([e |-> "call", f |-> "report", agg |-> a, path |-> p, stop |-> stop])
                   /\ m' = Mark([m EXCEPT !.pc = "report", !.who = a, !.path = p, !.stop = stop, !.polls = 0, !.op = Empty], a, "Called")
Fails == m.path # "secure"
Give(c) == Emit(Ret(c)) /\ m' = (IF Fails THEN Mark([m EXCEPT !.pc = "idle"], m.who, "Perm") ELSE [m EXCEPT !.pc = "idle"])
ReportStopped == m.pc = "report" /\ m.stop /\ Give("CANCELLED")
ReportReq == /\ m.pc = "report" /\ ~m.stop
             /\ LET t == Info(m.who) IN
                \E x \in Replies(IF m.path = "secure" THEN DoneSecagg ELSE DoneUpload) :
                  /\ Emit((IF m.path = "secure" THEN [k |-> "secstart"] ELSE [k |-> "upstart", conf |-> (m.path = "confidential")])
                          @@ [e |-> "req", fwd |-> t.fwd, agg |-> t.agg, tok |-> t.tok, st |-> x.st, rep |-> x.rep, t |-> 0])
                  /\ m' = [m EXCEPT !.pc = "report2", !.up = x]
\* The outcome report is in the same batch; whether it succeeds does not matter.
ReportReq2 == /\ m.pc = "report2"
              /\ LET t == Info(m.who) IN
                 \E st \in {"OK", "UNAVAILABLE"} :
                   /\ Emit([e |-> "req", k |-> "report", fwd |-> m.taf, sess |-> t.sess, agg |-> t.agg, name |-> t.name, code |-> 0, st |-> st, t |-> 0])
                   /\ m' = AfterReply(m.up)
Reporting == m.who \notin {"", "checkin"}
ReportGet == /\ m.pc = "slept" /\ Reporting
             /\ \E x \in Replies(IF m.path = "secure" THEN DoneSecagg ELSE DoneUpload) :
                  /\ Emit([e |-> "req", k |-> "get", fwd |-> Info(m.who).fwd, op |-> m.op.op, st |-> x.st, rep |-> x.rep, t |-> 0])
                  /\ m' = AfterReply(x)
ReportErr == /\ m.pc \in {"operr", "pollfail"} /\ Reporting /\ Give(m.ctx)
Secagg == /\ m.pc = "opdone" /\ Reporting /\ m.path = "secure"
          /\ \E b \in BOOLEAN : /\ Emit([e |-> "secagg", n |-> 5, surviving |-> 3, ok |-> b])
                                /\ m' = [m EXCEPT !.pc = "final", !.ctx = IF b THEN "OK" ELSE "UNAVAILABLE"]
Started ==
  /\ m.pc = "opdone" /\ Reporting /\ m.path # "secure"
  /\ IF m.up.badres \/ m.up.apf = -1 \/ m.up.upf = -1 THEN Give("INVALID_ARGUMENT")
     ELSE \/ m.path # "confidential" /\ m' = [m EXCEPT !.pc = "upload"] /\ UNCHANGED <<s, ok>>
          \/ /\ m.path = "confidential"
             /\ \/ \E c \in Bad : /\ Emit([e |-> "req", k |-> "fetch", task |-> "cfg", st |-> c, t |-> 0])
                                  /\ m' = [m EXCEPT !.pc = "operr", !.ctx = Code(c)]
                \/ Emit([e |-> "verify", ok |-> TRUE, policy |-> TRUE, key |-> 7]) /\ m' = [m EXCEPT !.pc = "upload"]
                \/ Emit([e |-> "verify", ok |-> FALSE, policy |-> TRUE, key |-> 7])
                   /\ m' = [m EXCEPT !.pc = "abort", !.ctx = "FAILED_PRECONDITION"]
ClientToken == IF m.path # "confidential" /\ m.up.cl = "" THEN Info(m.who).tok ELSE m.up.cl
Upload == /\ m.pc = "upload"
          /\ \E st \in Sts \cup {"ABORTED"} :
               /\ Emit([e |-> "req", k |-> "upload", fwd |-> m.up.upf, res |-> m.up.res, st |-> st, t |-> 0]
                       @@ (IF m.path = "confidential" THEN [how |-> "sealed", key |-> 7] ELSE [how |-> "plain"]))
               /\ m' = [m EXCEPT !.pc = IF Plain(st) = "OK" THEN "submit" ELSE IF st = "ABORTED" THEN "operr" ELSE "abort", !.ctx = st]
ToAgg(k) == [e |-> "req", k |-> k, fwd |-> m.up.apf, agg |-> m.who, tok |-> ClientToken, conf |-> (m.path = "confidential"), t |-> 0]
Abort == /\ m.pc = "abort" /\ Emit(ToAgg("abort") @@ [st |-> "OK"]) /\ m' = [m EXCEPT !.pc = "operr"]
Submit == /\ m.pc = "submit"
          /\ \E st \in Sts : /\ Emit(ToAgg("submit") @@ [st |-> st, res |-> m.up.res])
                             /\ m' = [m EXCEPT !.pc = "final", !.ctx = Plain(st)]
Final == m.pc = "final" /\ Emit(Ret(m.ctx)) /\ m' = [m EXCEPT !.pc = "idle"]
NotCompleted == /\ m.pc = "idle" /\ \E a \in Open :
                     /\ Emit([e |-> "call", f |-> "notcompleted", agg |-> a, code |-> 13, stop |-> FALSE])
                     /\ m' = Mark([m EXCEPT !.pc = "nc", !.who = a], a, "Called")
NotCompleted2 == /\ m.pc = "nc"
                 /\ LET t == Info(m.who) IN
                    \E st \in {"OK", "UNAVAILABLE"} :
                      /\ Emit([e |-> "req", k |-> "report", fwd |-> m.taf, sess |-> t.sess, agg |-> t.agg, name |-> t.name, code |-> 13, st |-> st, t |-> 0])
                      /\ m' = [m EXCEPT !.pc = "final", !.ctx = st]

Next == /\ ok
        /\ \/ EetCall \/ EetStopped \/ EetReq \/ EetHandle \/ EetFail
           \/ Poll \/ PollStop \/ CheckinCall \/ CheckinStopped \/ CheckinEet \/ CheckinReq \/ CheckinGet \/ CheckinCancel \/ CheckinErr \/ CheckinDone
           \/ MultiCall \/ MultiStopped \/ MultiEet \/ MultiReq \/ MultiFail \/ MultiFetch \/ MultiRet_
           \/ ReportCall \/ ReportStopped \/ ReportReq \/ ReportReq2 \/ ReportGet \/ ReportErr \/ Secagg \/ Started \/ Upload \/ Abort \/ Submit \/ Final
           \/ NotCompleted \/ NotCompleted2
Spec == Init /\ [][Next]_vars

\* ------------------------------------------------------------------ properties
Allowed == ok
\* The state from all tasks, and the window for it.
All == (IF m.def.st # "Initialized" THEN {m.def.st} ELSE {}) \cup {m.map[a].st : a \in DOMAIN m.map}
Latest == IF m.os \notin {"CheckinAccepted", "MultiAccepted"} THEN m.os
          ELSE IF ~m.multi THEN m.def.st
          ELSE IF All = {"Perm"} THEN "Perm" ELSE IF All = {"Called"} THEN "Called" ELSE "Partial"
Picked == CASE Latest = "Called" -> "A"
            [] Latest = "Accepted" -> "A"
            [] Latest \in {"EetRejected", "EetDisabled", "EetEnabled", "CheckinRejected", "MultiNoTask", "Partial"} -> "R"
            [] Latest \in {"Initialized", "EetFailed", "CheckinFailed", "MultiFailed"} -> IF m.times THEN "R" ELSE "T"
            [] OTHER -> "P"
WindowRight == m.pc \in {"new", "idle", "end"} => Picked \in Kinds(s)
\* Nothing is both submitted and aborted; nothing confidential leaves unsealed (by the steps of Session).
Exclusive == s.c.f = "report" => ~("submit" \in s.c.sent /\ s.c.abort # "no")
=============================================================================
