------------------------------ MODULE RunImpl ------------------------------
(* A run of the client as it is built: phase after phase, one task at a time, *)
(* with a network meter that is read at the start of a phase, a name that the *)
(* events go by, and an entry for the history that grows in memory and is     *)
(* written before anything is sent.  All that is seen of the run is fed to    *)
(* the monitors of FlRun, RunData and RunRecord.                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS FlagSet,      \* names of the settings to be tried
          Kinds,        \* sorts of tasks the server hands out
          MaxMany,      \* most tasks handed out at once
          Faults,       \* how many things may go wrong in a run
          Bug
FL == INSTANCE FlRun
DA == INSTANCE RunData
RE == INSTANCE RunRecord

VARIABLES m, fl, da, re
vars == <<m, fl, da, re>>

\* ---- what runs are made of ----------------------------------------------------------------
Flags(x) == [e |-> "start", session |-> "s", pop |-> "p", lw |-> x = "lw", untie |-> TRUE, cid |-> FALSE, lwid |-> FALSE,
             rec |-> TRUE, conf |-> FALSE, tflite |-> x # "notf", phases |-> x # "flat", tflog |-> FALSE, hist |-> <<>>]
Out(ty) == <<[n |-> "x", ty |-> ty, dims |-> <<1>>, vals |-> <<5>>]>>
Ans(ty) == <<[n |-> "o", ty |-> ty, want |-> "int32", there |-> TRUE, vals |-> <<1>>]>>
Qry(err, outs) == <<[u |-> "app:/a", have |-> 1, size |-> 7, make |-> 0, error |-> err, parses |-> TRUE, outs |-> outs]>>
Task(n, kind, defect, fetch, out, outs, q) ==
  [n |-> n, session |-> "session-" \o n, kind |-> kind, defect |-> defect, fetch |-> fetch, minsep |-> 3, in |-> FALSE,
   out |-> out, conf |-> FALSE, secagg |-> 0, outs |-> outs, queries |-> q, output |-> IF out THEN "ck" ELSE ""]
Make(n, k) ==
  CASE k = "tf" -> Task(n, "tf", "", 0, FALSE, Out("int32"), Qry(0, <<>>))
    [] k = "ck" -> Task(n, "tf", "", 0, TRUE, <<>>, Qry(0, <<>>))
    [] k = "odd" -> Task(n, "tf", "", 0, FALSE, Out("float"), Qry(0, <<>>))
    [] k = "eq" -> Task(n, "eq", "", 0, FALSE, <<>>, Qry(0, Ans("int32")))
    [] k = "noeq" -> Task(n, "eq", "", 0, FALSE, <<>>, Qry(13, Ans("int32")))
    [] k = "void" -> Task(n, "tf", "graph", 0, FALSE, Out("int32"), Qry(0, <<>>))
    [] k = "junk" -> Task(n, "tf", "parse", 0, FALSE, Out("int32"), Qry(0, <<>>))
    [] k = "lost" -> Task(n, "tf", "", 13, FALSE, Out("int32"), Qry(0, <<>>))
Pol == [kind |-> "da", make |-> 0, have |-> 1, error |-> 0, min |-> 1, tf |-> "ok", pass |-> <<>>]
Specs == {[has |-> FALSE, tasks |-> <<>>, pols |-> <<>>],
          [has |-> TRUE, pols |-> <<Pol, [Pol EXCEPT !.min = 2]>>,
           tasks |-> <<[n |-> "a", mode |-> 2, pols |-> <<0>>], [n |-> "b", mode |-> 2, pols |-> <<0>>],
                       [n |-> "c", mode |-> 1, pols |-> <<0, 1>>], [n |-> "d", mode |-> 2, pols |-> <<1>>]>>],
          [has |-> TRUE, pols |-> <<Pol>>, tasks |-> <<[n |-> "a", mode |-> 2, pols |-> <<0>>]>>]}
Codes == {"ABORTED", "CANCELLED", "UNAVAILABLE"}

\* ---- the runner -----------------------------------------------------------------------------
Bucket(phase, task) == [phase |-> phase, task |-> task, events |-> <<>>, text |-> "", data |-> <<>>, down |-> 0, up |-> 0, ms |-> 0]
Fresh == [pc |-> "begin", f |-> Flags("lw"), spec |-> CHOOSE x \in Specs : ~x.has, eet |-> "", net |-> 0, mark |-> 0, id |-> "",
          w |-> 0, q |-> <<>>, single |-> FALSE, asked |-> 0, gave |-> <<>>, minsep |-> -1, bs |-> <<Bucket("", "")>>,
          good |-> FALSE, acc |-> <<>>, left |-> Faults, spent |-> 0, out |-> <<>>]
Emit(x, e) == [x EXCEPT !.out = Append(@, e)]
\* An exchange with the server: costs one on each meter.
Trip(x) == [x EXCEPT !.net = @ + 1, !.w = x.net + 1]
\* Something goes wrong.
Bad(x) == [x EXCEPT !.left = @ - 1]
LogAs(x, kind, text) ==
  LET n == Len(x.bs) IN
  [x EXCEPT !.bs[n].events = Append(@, kind),
            !.bs[n].text = IF @ = "" \/ (Bug = "text" /\ text # "") THEN text ELSE @]
Log(x, name, text) == IF RE!Kind(name) = "?" THEN x ELSE LogAs(x, RE!Kind(name), text)
\* A phase keeps what was used since the one before.
Meter(b, n) == [b EXCEPT !.down = n, !.up = n, !.ms = n]
Opened(x, phase, task) ==
  IF ~x.f.phases THEN x
  ELSE [x EXCEPT !.bs = Append(IF Len(@) = 1 THEN @ ELSE [@ EXCEPT ![Len(@)] = Meter(@, x.net - IF Bug = "twice" THEN 0 ELSE x.spent)],
                               Bucket(phase, task)),
                 !.spent = x.net]
Tell(x, name, cost, text, ex, by) ==
  Emit(x, [e |-> "pub", name |-> name, down |-> IF cost THEN x.net - x.mark ELSE -1, up |-> IF cost THEN x.net - x.mark ELSE -1,
           ms |-> IF cost THEN x.net - x.mark ELSE -1, examples |-> ex, bytes |-> by, tells |-> FALSE,
           alldown |-> x.net, allup |-> x.net, allms |-> x.net, text |-> text, id |-> x.id])
Pub(x, name, cost, text) == Log(Tell(x, name, cost, text, -1, -1), name, text)
Mark(x) == [x EXCEPT !.mark = x.net]
Open(x, name, phase, task) == Pub(Mark(Opened(x, phase, task)), name, FALSE, "")
As(x, id) == [x EXCEPT !.id = id]

Begin ==
  /\ m.pc = "begin"
  /\ \E n \in FlagSet, ok \in BOOLEAN, init \in {"", "soft", "hard"} :
       LET f == Flags(n)
           a == Emit([Fresh EXCEPT !.f = f], f)
           b == IF init = "" THEN a
                ELSE Bad(Pub(a, IF (init = "soft") # (Bug = "swap") THEN "PublishNonfatalInitializationError"
                                ELSE "PublishFatalInitializationError", FALSE, "init"))
           c == Emit(b, [e |-> "conds", ok |-> ok]) IN
       /\ Faults = 0 => ok /\ init = ""
       /\ IF init = "hard" THEN ok /\ m' = [b EXCEPT !.pc = "over"]
          ELSE IF ~ok THEN m' = [Bad(Pub(c, "PublishTaskNotStarted", FALSE, "")) EXCEPT !.pc = "end"]
          ELSE m' = [Open(c, "PublishEligibilityEvalCheckin", "ELIGIBILITY_EVAL_CHECKIN", "") EXCEPT !.pc = "eet"]

\* Does the metering start again with the payloads?
Again(x) == IF Bug = "meter" THEN x ELSE Mark(x)
Eet ==
  /\ m.pc = "eet"
  /\ \E r \in {"task", "rejected", "disabled", "garbled", "nofile", "db"} \cup Codes, sp \in Specs :
       LET uri == r \in {"task", "garbled", "nofile", "db"}
           a == IF uri THEN Mark(Pub(As(Trip(m), "eet"), "PublishEligibilityEvalPlanUriReceived", TRUE, "")) ELSE m
           t == IF uri THEN "task" ELSE r
           b == Emit([Trip(a) EXCEPT !.eet = t, !.spec = sp],
                     [e |-> "eet", r |-> t, parses |-> r # "garbled", spec |-> sp, w |-> a.net + 1, cb |-> uri])
           p == "PublishEligibilityEval"
           done(x) == [x EXCEPT !.pc = "end"]
           sorry(x) == done(Emit(Trip(x), [e |-> "eeterr", c |-> "INTERNAL", w |-> x.net + 1]))
           file(ok) == Emit(b, [e |-> "temp", f |-> "init", r |-> IF ok THEN "OK" ELSE "INTERNAL"])
           comp == Open(Pub(file(TRUE), p \o "PlanReceived", TRUE, ""), p \o "ComputationStarted", "ELIGIBILITY_COMPUTATION", "") IN
       /\ r \notin {"task", "disabled"} => m.left > 0 /\ ~sp.has
       /\ m' = CASE r \in Codes -> done(Bad(Pub(b, RE!Failed(p \o "Checkin", "IoError", r), TRUE, r)))
                 [] r = "rejected" -> done(Bad(Pub(b, p \o "Rejected", TRUE, "")))
                 [] r = "disabled" -> [Pub(b, p \o "NotConfigured", TRUE, "") EXCEPT !.pc = "choose"]
                 [] r = "garbled" -> sorry(Bad(Pub(b, p \o "CheckinErrorInvalidPayload", TRUE, "junk")))
                 [] r = "nofile" -> sorry(Bad(Pub(file(FALSE), p \o "CheckinIoError", TRUE, "file")))
                 [] r = "db" -> sorry(Bad(Pub(Emit(comp, [e |-> "dbread", ok |-> FALSE]), p \o "ComputationIOError", FALSE, "db")))
                 [] OTHER -> [Pub(Emit(comp, [e |-> "dbread", ok |-> TRUE]), p \o "ComputationCompleted", FALSE, "") EXCEPT !.pc = "choose"]

Many == FL!AskMany([spec |-> m.spec, eet |-> m.eet, f |-> m.f])
One == FL!AskOne([spec |-> m.spec])
Elect(info) == [i \in DOMAIN info |-> [n |-> info[i].n, w |-> IF FL!Eligible(info[i], m.spec, m.f) THEN 1 ELSE 0]]

Choose ==
  /\ m.pc = "choose"
  /\ m' = IF Many # <<>>
            THEN [Open(As(m, ""), "PublishMultipleTaskAssignmentsStarted", "MULTIPLE_TASK_ASSIGNMENTS", "") EXCEPT !.pc = "many"]
            ELSE [m EXCEPT !.pc = "one?"]

\* The tasks that came are unpacked one after the other.
RECURSIVE Unpack(_, _, _, _)
Unpack(x, ts, i, nofile) ==
  IF i > Len(ts) THEN x
  ELSE LET t == ts[i]
           p == "PublishMultipleTaskAssignments"
           err(y, k) == LET z == Pub(As(y, t.n), p \o k, FALSE, "bad") IN As(z, "")
           file == Emit(x, [e |-> "temp", f |-> "init", r |-> IF i = nofile THEN "INTERNAL" ELSE "OK"]) IN
       IF t.fetch # 0 THEN Unpack(err(x, "PayloadIOError"), ts, i + 1, nofile)
       ELSE IF t.defect = "parse" THEN Unpack(err(x, "InvalidPayload"), ts, i + 1, nofile)
       ELSE IF t.kind = "tf" /\ i = nofile /\ Bug # "nofile" THEN Unpack(err(file, "PayloadIOError"), ts, i + 1, nofile)
       ELSE Unpack([IF t.kind = "tf" THEN file ELSE x EXCEPT !.q = Append(@, t)], ts, i + 1, nofile)
Poor(k) == k \in {"odd", "noeq", "void", "junk", "lost"}
Lists(names) == UNION {[1..n -> Kinds] : n \in 0..(IF Len(names) < MaxMany THEN Len(names) ELSE MaxMany)}
AskMany ==
  /\ m.pc = "many"
  /\ \E r \in {"OK"} \cup Codes, ks \in Lists(Many), nofile \in 0..2 :
       LET ts == [i \in DOMAIN ks |-> Make(Many[i], ks[i])]
           cb == r = "OK" /\ ks # <<>>
           all == Len(ks) = Len(Many)
           p == "PublishMultipleTaskAssignments"
           a == IF cb THEN Again(Pub(Trip(m), p \o (IF all THEN "PlanUriReceived" ELSE "PlanUriPartialReceived"), TRUE, "")) ELSE m
           b == Emit([Trip(a) EXCEPT !.asked = Len(Many)],
                     [e |-> "multi", names |-> Many, r |-> r, tasks |-> ts, w |-> a.net + 1, cb |-> cb, count |-> Len(ks)])
           c == Unpack(b, ts, 1, nofile)
           wrong == Cardinality({i \in DOMAIN ks : Poor(ks[i])}) + (IF r = "OK" THEN 0 ELSE 1) + (IF nofile = 0 THEN 0 ELSE 1) IN
       /\ wrong <= m.left
       /\ r # "OK" => ks = <<>> /\ nofile = 0
       /\ nofile # 0 => nofile <= Len(ks) /\ ks[nofile] = "tf"
       /\ m' = [(IF r # "OK" THEN Pub(b, RE!Failed(p, "IOError", r), TRUE, r)
                 ELSE IF ks = <<>> THEN Pub(b, p \o "TurnedAway", TRUE, "")
                 ELSE Pub(c, p \o (IF Len(c.q) = Len(ks) THEN "Completed" ELSE "PartialCompleted"), TRUE, ""))
                 EXCEPT !.pc = "work", !.left = @ - wrong]

AskOne ==
  /\ m.pc = "one?"
  /\ IF ~One /\ Bug # "single" THEN m' = [m EXCEPT !.pc = "end"]
     ELSE \E r \in {"OK", "rejected"} \cup Codes, k \in Kinds \ {"lost"}, nofile \in BOOLEAN :
       LET t == Make("single", k)
           weighed == FL!Weighed([eet |-> m.eet, spec |-> m.spec])
           a == Open(As(m, ""), "PublishCheckin", "CHECKIN", "")
           cb == r = "OK"
           b == IF cb THEN Again(Pub(As(Trip(a), "single"), "PublishCheckinPlanUriReceived", TRUE, "")) ELSE a
           c == Emit([Trip(b) EXCEPT !.asked = @ + 1, !.single = TRUE],
                     [e |-> "checkin", has |-> weighed,
                      info |-> IF weighed THEN Elect(SelectSeq(m.spec.tasks, LAMBDA y : y.mode # 2)) ELSE <<>>,
                      r |-> r, task |-> t, w |-> b.net + 1, cb |-> cb])
           d == IF t.kind = "tf" THEN Emit(c, [e |-> "temp", f |-> "init", r |-> IF nofile THEN "INTERNAL" ELSE "OK"]) ELSE c
           wrong == (IF Poor(k) THEN 1 ELSE 0) + (IF r = "OK" THEN 0 ELSE 1) + (IF nofile THEN 1 ELSE 0) IN
       /\ wrong <= m.left
       /\ r # "OK" => k = "tf" /\ ~nofile
       /\ nofile => k = "tf"
       /\ m' = [(IF r = "rejected" THEN Pub(c, "PublishRejected", TRUE, "")
                 ELSE IF r # "OK" THEN Pub(c, RE!Failed("PublishCheckin", "IoError", r), TRUE, r)
                 ELSE IF k = "junk" THEN Pub(c, "PublishCheckinInvalidPayload", TRUE, "junk")
                 ELSE IF nofile THEN Pub(d, "PublishCheckinIoError", TRUE, "file")
                 ELSE [Pub(d, "PublishCheckinFinishedV2", TRUE, "") EXCEPT !.q = <<t>>, !.minsep = t.minsep])
                 EXCEPT !.pc = "work", !.left = @ - wrong]

\* ---- a task -------------------------------------------------------------------------------------
LookAt(x, t) ==
  Emit(x, [e |-> "look", u |-> "app:/a", kind |-> "fed", session |-> "s", pop |-> "p", task |-> t.n, id |-> "",
           result |-> t.kind = "eq", agg |-> IF t.kind = "eq" \/ t.out THEN "simple" ELSE "secure", min |-> 0, last |-> -1,
           acc |-> <<>>, made |-> 0])
\* Several uses of a source add up.
RECURSIVE Merge(_, _, _)
Merge(d, use, i) ==
  IF i > Len(use) THEN d
  ELSE LET x == use[i]
           at == {k \in DOMAIN d : d[k].u = x.u} IN
       Merge(IF at = {} THEN Append(d, [u |-> x.u, n |-> x.n, bytes |-> x.bytes, first |-> "ok"])
             ELSE [k \in DOMAIN d |-> IF k \notin at THEN d[k]
                                      ELSE [d[k] EXCEPT !.n = x.n + IF Bug = "anew" THEN 0 ELSE @, !.bytes = @ + x.bytes]],
             use, i + 1)
Use(n) == [u |-> "app:/a", n |-> n, bytes |-> 7 * n]
Work ==
  /\ m.pc = "work"
  /\ IF m.q = <<>> THEN m' = [m EXCEPT !.pc = IF m.single THEN "end" ELSE "one?"]
     ELSE \E ran \in {"OK", "Cancelled", "InvalidArgument"}, iter \in {0, 1, 13} :
       LET t == m.q[1]
           runs == FL!Runs(t, m.f)
           a == Emit(Open(As(m, t.n), "PublishComputationStarted", "COMPUTATION", t.n), [e |-> "dbread", ok |-> TRUE])
           b == IF t.kind = "eq" THEN LookAt(a, t)
                ELSE IF ~runs THEN a
                ELSE Emit(LookAt(Emit(a, [e |-> "model", m |-> t.n, input |-> TRUE, output |-> TRUE, names |-> TRUE]), t),
                          [e |-> "ran", m |-> t.n, r |-> ran, iters |-> IF iter = 0 THEN <<>> ELSE <<iter>>,
                           reads |-> <<[u |-> "app:/a", want |-> 1, n |-> 1, bytes |-> 7, vals |-> <<0>>, end |-> "OK", inorder |-> TRUE]>>])
           n == IF t.kind = "eq" THEN (IF t.queries[1].error = 0 THEN 1 ELSE 0) ELSE 1
           use == (IF Bug = "mixed" THEN m.acc ELSE <<>>) \o (IF t.kind = "eq" \/ runs THEN <<Use(n)>> ELSE <<>>)
           good == FL!Good(t, m.f, ran)
           fail == IF t.defect # "" THEN "InvalidArgument"
                   ELSE IF t.kind = "eq" THEN "ExampleIteratorError"
                   ELSE IF ~runs \/ ran = "OK" THEN "TensorflowError"
                   ELSE IF ran = "Cancelled" \/ iter = 1 THEN "Interrupted"
                   ELSE IF iter # 0 THEN "ExampleIteratorError" ELSE "TensorflowError"
           name == "PublishComputation" \o (IF good THEN "Completed" ELSE fail)
           text == IF good THEN "" ELSE "why"
           c == Log(Tell([b EXCEPT !.bs[Len(b.bs)].data =
                            Merge(@, use, 1)],
                         name, TRUE, text, IF use = <<>> THEN 0 ELSE Len(use) * n, IF use = <<>> THEN 0 ELSE 7 * Len(use) * n), name, text)
           d == LogAs(Opened(c, "UPLOAD", ""), IF good THEN "RESULT_UPLOAD_STARTED" ELSE "FAILURE_UPLOAD_STARTED", "") IN
       /\ ran = "OK" => iter = 0
       /\ ran = "Cancelled" => iter = 0
       /\ ~runs => ran = "OK"
       /\ ran # "OK" => m.left > 0
       /\ m' = [d EXCEPT !.pc = "keep", !.good = good, !.acc = use, !.left = @ - IF ran = "OK" THEN 0 ELSE 1]

Close(x, ok) ==
  LET t == x.q[1]
      y == Emit(x, [e |-> "done", ok |-> ok, has |-> TRUE, task |-> t.n, queries |-> [i \in DOMAIN x.acc |-> [u |-> x.acc[i].u, n |-> x.acc[i].n]]]) IN
  [y EXCEPT !.pc = "work", !.q = IF Bug = "giveup" /\ ~ok THEN <<>> ELSE Tail(@), !.gave = IF ok THEN Append(@, t.n) ELSE @,
            !.acc = IF Bug = "mixed" THEN @ ELSE <<>>]
Keep ==
  /\ m.pc = "keep"
  /\ \E kept \in BOOLEAN, r \in {"OK"} \cup Codes :
       LET t == m.q[1]
           what == IF m.good THEN "Result" ELSE "Failure"
           a == Emit(m, [e |-> "commit", ok |-> kept])
           b == Tell(Mark(a), "Publish" \o what \o "UploadStarted", FALSE, "", -1, -1)
           tr == Trip(b)
           c == IF m.good
                  THEN Emit(tr, [e |-> "report", ok |-> TRUE, named |-> ~m.single, session |-> IF m.single THEN "" ELSE t.session,
                                 tensors |-> [i \in DOMAIN t.outs |-> [n |-> t.outs[i].n, bits |-> FL!Bits(t.outs[i].ty), dims |-> t.outs[i].dims, vals |-> t.outs[i].vals]],
                                 ck |-> (t.kind = "eq" /\ ~m.f.lw) \/ t.out, plain |-> t.output,
                                 slices |-> IF t.kind = "eq" /\ ~m.f.lw THEN <<"o|int32|1">> ELSE <<>>,
                                 fc |-> t.kind = "eq" /\ m.f.lw, fcs |-> IF t.kind = "eq" /\ m.f.lw THEN <<"o|int32|1">> ELSE <<>>,
                                 r |-> r, w |-> tr.net])
                  ELSE Emit(tr, [e |-> "report", ok |-> FALSE, named |-> ~m.single, session |-> IF m.single THEN "" ELSE t.session,
                                 outcome |-> "ERROR", r |-> r, w |-> tr.net])
           p == "Publish" \o what \o "Upload"
           d == Pub(IF Bug = "window" THEN [c EXCEPT !.w = m.w] ELSE c, IF r = "OK" THEN p \o "Completed" ELSE RE!Failed(p, "IOError", r), TRUE, IF r = "OK" THEN "" ELSE r)
           wrong == (IF kept THEN 0 ELSE 1) + (IF r = "OK" THEN 0 ELSE 1) IN
       /\ wrong <= m.left
       /\ ~kept => r = "OK"
       /\ m' = IF kept \/ Bug = "unkept"
                 THEN Close([d EXCEPT !.left = @ - wrong],
                            CASE Bug = "count" -> r = "OK" [] Bug = "sent" -> m.good [] OTHER -> r = "OK" /\ m.good)
                 ELSE Close([a EXCEPT !.left = @ - wrong], FALSE)

\* The next phase starts without a name of its own.
Contribution == IF m.gave = <<>> THEN "FAIL" ELSE IF Len(m.gave) = m.asked THEN "SUCCESS" ELSE "PARTIAL"
Body == IF m.f.phases THEN [i \in 1..(Len(m.bs) - 1) |-> m.bs[i + 1]] ELSE <<>>
Entry == [e |-> "stored", session |-> "s", pop |-> "p", top |-> m.bs[1], phases |-> Body, down |-> m.net, up |-> m.net, ms |-> m.net,
          min |-> m.w, max |-> m.w + 100, token |-> FALSE, minsep |-> m.minsep, alldown |-> m.net, allup |-> m.net, allms |-> m.net]
End ==
  /\ m.pc \in {"end", "over"}
  /\ LET a == Emit(m, IF m.pc = "over" THEN [e |-> "result", r |-> "stopped"]
                      ELSE [e |-> "result", r |-> "OK", contrib |-> Contribution, names |-> m.gave,
                            token |-> "w" \o ToString(m.w), delay |-> m.w])
         b == Emit(Emit(a, [e |-> "commit", ok |-> TRUE]), Entry) IN
     m' = [b EXCEPT !.pc = "gone"]

\* ---- the monitors ------------------------------------------------------------------------------
RECURSIVE FoldF(_, _), FoldD(_, _), FoldR(_, _)
FoldF(s, q) == IF q = <<>> \/ s.at = "wrong" THEN s ELSE FoldF(FL!Step(s, q[1]), Tail(q))
FoldD(s, q) == IF q = <<>> \/ s.at = "wrong" THEN s ELSE FoldD(DA!Step(s, q[1]), Tail(q))
FoldR(s, q) == IF q = <<>> \/ s.st = "wrong" THEN s ELSE FoldR(RE!Step(s, q[1]), Tail(q))
Watch == /\ fl' = FoldF(fl, m'.out) /\ da' = FoldD(da, m'.out) /\ re' = FoldR(re, m'.out)

Init == m = Fresh /\ fl = FL!New /\ da = DA!New /\ re = RE!New
Act == Begin \/ Eet \/ Choose \/ AskMany \/ AskOne \/ Work \/ Keep \/ End
\* What was seen before is no longer needed.
Next == \/ /\ m.out = <<>> /\ Act /\ Watch
        \/ /\ m.out # <<>> /\ m' = [m EXCEPT !.out = <<>>] /\ UNCHANGED <<fl, da, re>>
Spec == Init /\ [][Next]_vars

Right == fl.at # "wrong" /\ da.at # "wrong" /\ re.st # "wrong"
\* A run that is over is over for everybody.
Together == m.pc = "gone" => fl.at = "over" /\ re.st = "over"
============================================================================
