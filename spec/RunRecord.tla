----------------------------- MODULE RunRecord -----------------------------
(* What a run tells the world about itself: the events it publishes and the   *)
(* entry it leaves in the history agree with what happened between the        *)
(* client, the server, the device and the model.                              *)
EXTENDS RunBase, Integers

\* ---- what is published, and how the history calls it ----------------------------------
Kind(p) ==
  CASE p = "PublishTaskNotStarted" -> "TRAIN_NOT_STARTED"
    [] p = "PublishNonfatalInitializationError" -> "INITIALIZATION_ERROR_NONFATAL"
    [] p = "PublishFatalInitializationError" -> "INITIALIZATION_ERROR_FATAL"
    [] p = "PublishEligibilityEvalCheckin" -> "ELIGIBILITY_CHECKIN_STARTED"
    [] p = "PublishEligibilityEvalCheckinIoError" -> "ELIGIBILITY_CHECKIN_ERROR_IO"
    [] p = "PublishEligibilityEvalCheckinClientInterrupted" -> "ELIGIBILITY_CHECKIN_CLIENT_INTERRUPTED"
    [] p = "PublishEligibilityEvalCheckinServerAborted" -> "ELIGIBILITY_CHECKIN_SERVER_ABORTED"
    [] p = "PublishEligibilityEvalNotConfigured" -> "ELIGIBILITY_DISABLED"
    [] p = "PublishEligibilityEvalRejected" -> "ELIGIBILITY_REJECTED"
    [] p = "PublishEligibilityEvalCheckinErrorInvalidPayload" -> "ELIGIBILITY_CHECKIN_ERROR_INVALID_PAYLOAD"
    [] p = "PublishEligibilityEvalPlanUriReceived" -> "ELIGIBILITY_PLAN_URI_RECEIVED"
    [] p = "PublishEligibilityEvalPlanReceived" -> "ELIGIBILITY_ENABLED"
    [] p = "PublishEligibilityEvalComputationStarted" -> "ELIGIBILITY_COMPUTATION_STARTED"
    [] p = "PublishEligibilityEvalComputationIOError" -> "ELIGIBILITY_COMPUTATION_ERROR_IO"
    [] p = "PublishEligibilityEvalComputationCompleted" -> "ELIGIBILITY_COMPUTATION_FINISHED"
    [] p = "PublishMultipleTaskAssignmentsStarted" -> "MULTIPLE_TASK_ASSIGNMENTS_STARTED"
    [] p = "PublishMultipleTaskAssignmentsIOError" -> "MULTIPLE_TASK_ASSIGNMENTS_ERROR_IO"
    [] p = "PublishMultipleTaskAssignmentsPayloadIOError" -> "MULTIPLE_TASK_ASSIGNMENTS_ERROR_PAYLOAD_IO"
    [] p = "PublishMultipleTaskAssignmentsInvalidPayload" -> "MULTIPLE_TASK_ASSIGNMENTS_ERROR_INVALID_PAYLOAD"
    [] p = "PublishMultipleTaskAssignmentsClientInterrupted" -> "MULTIPLE_TASK_ASSIGNMENTS_CLIENT_INTERRUPTED"
    [] p = "PublishMultipleTaskAssignmentsServerAborted" -> "MULTIPLE_TASK_ASSIGNMENTS_SERVER_ABORTED"
    [] p = "PublishMultipleTaskAssignmentsTurnedAway" -> "MULTIPLE_TASK_ASSIGNMENTS_REJECTED"
    [] p = "PublishMultipleTaskAssignmentsPlanUriReceived" -> "MULTIPLE_TASK_ASSIGNMENTS_PLAN_URI_RECEIVED"
    [] p = "PublishMultipleTaskAssignmentsPlanUriPartialReceived" -> "MULTIPLE_TASK_ASSIGNMENTS_PLAN_URI_PARTIAL_RECEIVED"
    [] p = "PublishMultipleTaskAssignmentsPartialCompleted" -> "MULTIPLE_TASK_ASSIGNMENTS_PARTIAL_COMPLETED"
    [] p = "PublishMultipleTaskAssignmentsCompleted" -> "MULTIPLE_TASK_ASSIGNMENTS_COMPLETED"
    [] p = "PublishCheckin" -> "CHECKIN_STARTED"
    [] p = "PublishCheckinIoError" -> "CHECKIN_ERROR_IO"
    [] p = "PublishCheckinClientInterrupted" -> "CHECKIN_CLIENT_INTERRUPTED"
    [] p = "PublishCheckinServerAborted" -> "CHECKIN_SERVER_ABORTED"
    [] p = "PublishRejected" -> "CHECKIN_REJECTED"
    [] p = "PublishCheckinInvalidPayload" -> "CHECKIN_ERROR_INVALID_PAYLOAD"
    [] p = "PublishCheckinPlanUriReceived" -> "CHECKIN_PLAN_URI_RECEIVED"
    [] p = "PublishCheckinFinishedV2" -> "CHECKIN_ACCEPTED"
    [] p = "PublishComputationStarted" -> "COMPUTATION_STARTED"
    [] p = "PublishComputationInvalidArgument" -> "COMPUTATION_ERROR_INVALID_ARGUMENT"
    [] p = "PublishComputationIOError" -> "COMPUTATION_ERROR_IO"
    [] p = "PublishComputationExampleIteratorError" -> "COMPUTATION_ERROR_EXAMPLE_ITERATOR"
    [] p = "PublishComputationTensorflowError" -> "COMPUTATION_ERROR_TENSORFLOW"
    [] p = "PublishComputationInterrupted" -> "COMPUTATION_CLIENT_INTERRUPTED"
    [] p = "PublishComputationCompleted" -> "COMPUTATION_FINISHED"
    [] p = "PublishResultUploadStarted" -> "RESULT_UPLOAD_STARTED"
    [] p = "PublishResultUploadIOError" -> "RESULT_UPLOAD_ERROR_IO"
    [] p = "PublishResultUploadClientInterrupted" -> "RESULT_UPLOAD_CLIENT_INTERRUPTED"
    [] p = "PublishResultUploadServerAborted" -> "RESULT_UPLOAD_SERVER_ABORTED"
    [] p = "PublishResultUploadCompleted" -> "RESULT_UPLOAD_FINISHED"
    [] p = "PublishFailureUploadStarted" -> "FAILURE_UPLOAD_STARTED"
    [] p = "PublishFailureUploadIOError" -> "FAILURE_UPLOAD_ERROR_IO"
    [] p = "PublishFailureUploadClientInterrupted" -> "FAILURE_UPLOAD_CLIENT_INTERRUPTED"
    [] p = "PublishFailureUploadServerAborted" -> "FAILURE_UPLOAD_SERVER_ABORTED"
    [] p = "PublishFailureUploadCompleted" -> "FAILURE_UPLOAD_FINISHED"
    [] OTHER -> "?"

\* An error reported by the protocol, by phase.
Failed(prefix, io, r) ==
  prefix \o (CASE r = "ABORTED" -> "ServerAborted" [] r = "CANCELLED" -> "ClientInterrupted" [] OTHER -> io)

\* ---- which outcome is due -----------------------------------------------------------------
Outcomes(s) ==
  LET t == s.t IN
  IF s.nofile THEN {"IOError"}
  ELSE IF ~Sound(t) THEN {"InvalidArgument"} \cup (IF t.kind = "tf" /\ ~s.f.tflite THEN {"TensorflowError"} ELSE {})
  ELSE IF t.kind = "eq" THEN {IF Good(t, s.f, "") THEN "Completed" ELSE "ExampleIteratorError"}
  ELSE IF ~s.f.tflite THEN {"TensorflowError"}
  ELSE CASE s.ran = "OK" -> {IF Good(t, s.f, s.ran) THEN "Completed" ELSE "TensorflowError"}
         [] s.ran = "Cancelled" -> {"Interrupted"}
         \* An error of an example source comes before errors of the model.
         [] s.ran = "InvalidArgument" /\ s.iters # {} ->
              (IF 1 \in s.iters THEN {"Interrupted"} ELSE {}) \cup (IF s.iters \ {1} # {} THEN {"ExampleIteratorError"} ELSE {})
         [] OTHER -> {"TensorflowError"}

Due(s) ==
  CASE s.st = "unmet" -> {"PublishTaskNotStarted"}
    [] s.st = "start" -> IF s.sent THEN {} ELSE {"PublishNonfatalInitializationError", "PublishFatalInitializationError"}
    [] s.st = "met" -> {"PublishEligibilityEvalCheckin"}
    [] s.st = "eet" -> IF s.uri THEN {} ELSE {"PublishEligibilityEvalPlanUriReceived"}
    [] s.st = "eetted" ->
         (CASE s.r = "rejected" -> {"PublishEligibilityEvalRejected"}
            [] s.r = "disabled" -> {"PublishEligibilityEvalNotConfigured"}
            [] s.r = "task" -> IF ~s.parses THEN {"PublishEligibilityEvalCheckinErrorInvalidPayload"}
                               ELSE IF s.temp = "" THEN {}
                               ELSE IF s.temp = "OK" THEN {"PublishEligibilityEvalPlanReceived"}
                               ELSE {"PublishEligibilityEvalCheckinIoError"}
            [] OTHER -> {Failed("PublishEligibilityEvalCheckin", "IoError", s.r)})
    [] s.st = "plan" -> {"PublishEligibilityEvalComputationStarted"}
    [] s.st = "eligible" ->
         (IF s.dbbad THEN {"PublishEligibilityEvalComputationIOError"} ELSE IF s.faulty /\ ~s.erred THEN {} ELSE {"PublishEligibilityEvalComputationCompleted"})
         \cup (IF s.nonfatal THEN {"PublishEligibilityEvalComputationErrorNonfatal"} ELSE {})
    [] s.st = "next" -> {"PublishMultipleTaskAssignmentsStarted", "PublishCheckin", "PublishComputationStarted"}
    [] s.st = "many" -> IF s.uri THEN {} ELSE {"PublishMultipleTaskAssignmentsPlanUriReceived",
                                               "PublishMultipleTaskAssignmentsPlanUriPartialReceived"}
    [] s.st = "given" ->
         (IF s.r # "OK" THEN {Failed("PublishMultipleTaskAssignments", "IOError", s.r)}
          ELSE IF s.pool = <<>> THEN {"PublishMultipleTaskAssignmentsTurnedAway"}
          ELSE {IF s.lost + s.garbled = 0 THEN "PublishMultipleTaskAssignmentsCompleted"
                ELSE "PublishMultipleTaskAssignmentsPartialCompleted"}
               \cup (IF s.lost > s.saidlost THEN {"PublishMultipleTaskAssignmentsPayloadIOError"} ELSE {})
               \cup (IF s.garbled > s.saidgarbled THEN {"PublishMultipleTaskAssignmentsInvalidPayload"} ELSE {}))
    [] s.st = "one" -> IF s.uri THEN {} ELSE {"PublishCheckinPlanUriReceived"}
    [] s.st = "oned" ->
         (IF s.r = "rejected" THEN {"PublishRejected"}
          ELSE IF s.r # "OK" THEN {Failed("PublishCheckin", "IoError", s.r)}
          ELSE IF s.single.defect = "parse" THEN {"PublishCheckinInvalidPayload"}
          ELSE IF NeedsIn(s.single) /\ s.temp = "" THEN {}
          ELSE IF s.temp \in {"", "OK"} THEN {"PublishCheckinFinishedV2"}
          ELSE {"PublishCheckinIoError"})
    [] s.st = "task" -> {"PublishComputation" \o o : o \in Outcomes(s)}
    [] s.st = "kept" -> {"Publish" \o s.what \o "UploadStarted"}
    [] s.st = "reported" -> {IF s.r = "OK" THEN "Publish" \o s.what \o "UploadCompleted"
                             ELSE Failed("Publish" \o s.what \o "Upload", "IOError", s.r)}
    [] OTHER -> {}

\* ---- the run ----------------------------------------------------------------------------
None == [n |-> "", kind |-> "", defect |-> ""]
New == [st |-> "none"]
Wrong == [st |-> "wrong"]
Begin(e) == [st |-> "start", sent |-> FALSE, f |-> e, uri |-> FALSE, part |-> FALSE, erred |-> FALSE, faulty |-> FALSE, r |-> "", parses |-> TRUE, temp |-> "", dbbad |-> FALSE,
             nonfatal |-> FALSE, pool |-> <<>>, asked |-> 0, lost |-> 0, garbled |-> 0, saidlost |-> 0, saidgarbled |-> 0,
             single |-> None, t |-> None, nofile |-> FALSE, ran |-> "", iters |-> {}, what |-> "", id |-> "", bare |-> TRUE,
             mark |-> <<0, 0, 0>>, kinds |-> <<>>, cut |-> <<>>, text |-> "", texts |-> <<>>, tasks |-> <<>>,
             minsep |-> -1, w |-> -1]

All(e) == <<e.alldown, e.allup, e.allms>>
\* Network use is told for the stretch since the phase began or its resources were known.
Cost(s, e) == e.down < 0 \/ /\ e.down = e.alldown - s.mark[1] /\ e.up = e.allup - s.mark[2] /\ e.ms = e.allms - s.mark[3]
Opens == {"PublishEligibilityEvalCheckin", "PublishEligibilityEvalComputationStarted", "PublishMultipleTaskAssignmentsStarted",
          "PublishCheckin", "PublishComputationStarted", "PublishResultUploadStarted", "PublishFailureUploadStarted"}
Uris == {"PublishEligibilityEvalPlanUriReceived", "PublishMultipleTaskAssignmentsPlanUriReceived",
         "PublishMultipleTaskAssignmentsPlanUriPartialReceived", "PublishCheckinPlanUriReceived"}
Named(s, n) == LET m == Sel(s.pool, LAMBDA t : t.n = n) IN m[Len(m)]
Knows(s, n) == \E i \in DOMAIN s.pool : s.pool[i].n = n

\* One of several tasks could not be used.
Parts == {"PublishMultipleTaskAssignmentsPayloadIOError", "PublishMultipleTaskAssignmentsInvalidPayload"}
\* Whose name an event goes by.
Who(s, e) ==
  CASE e.name \in {"PublishEligibilityEvalCheckin", "PublishMultipleTaskAssignmentsStarted", "PublishCheckin",
                   "PublishTaskNotStarted", "PublishNonfatalInitializationError", "PublishFatalInitializationError"} -> e.id = ""
    [] e.name = "PublishEligibilityEvalPlanUriReceived" -> e.id = "eet"
    [] e.name = "PublishCheckinPlanUriReceived" -> TRUE       \* compared with the task once it is known
    [] e.name = "PublishComputationStarted" -> Knows(s, e.id)
    [] e.name \in Parts -> Knows(s, e.id)
    [] OTHER -> e.id = s.id

After(s, e) ==
  LET p == e.name IN
  CASE p = "PublishTaskNotStarted" -> "stopped"
    [] p = "PublishNonfatalInitializationError" -> "start"
    [] p = "PublishFatalInitializationError" -> "stopped"
    [] p = "PublishEligibilityEvalCheckin" -> "eet"
    [] p \in Uris -> s.st
    [] p = "PublishEligibilityEvalPlanReceived" -> "plan"
    [] p = "PublishEligibilityEvalNotConfigured" -> "next"
    [] s.st = "eetted" -> "stopped"
    [] p = "PublishEligibilityEvalComputationStarted" -> "eligible"
    [] p = "PublishEligibilityEvalComputationErrorNonfatal" -> "eligible"
    [] p = "PublishEligibilityEvalComputationCompleted" -> "next"
    [] s.st = "eligible" -> "stopped"
    [] p = "PublishMultipleTaskAssignmentsStarted" -> "many"
    [] p \in Parts -> "given"
    [] p = "PublishCheckin" -> "one"
    [] p = "PublishComputationStarted" -> "task"
    [] s.st = "task" -> "computed"
    [] s.st = "kept" -> "upload"
    [] OTHER -> "next"

\* Messages of the model are told only if that is wanted.
Quiet(s, e) == (s.st = "task" /\ e.name = "PublishComputationTensorflowError" /\ s.ran = "InvalidArgument") => e.tells = s.f.tflog

Said(s, e) ==
  IF ~(e.name \in Due(s) /\ Who(s, e) /\ Cost(s, e) /\ Quiet(s, e)) THEN Wrong
  ELSE LET opens == e.name \in Opens
           uri == e.name \in Uris
           closed == s.kinds # <<>> /\ opens
           silent == e.name = "PublishEligibilityEvalComputationErrorNonfatal"
           already == e.name \in {"PublishResultUploadStarted", "PublishFailureUploadStarted"} IN
       [s EXCEPT !.st = After(s, e),
                 !.sent = TRUE,
                 !.part = e.name = "PublishMultipleTaskAssignmentsPlanUriPartialReceived",
                 !.erred = @ \/ silent,
                 !.uri = IF uri THEN TRUE ELSE IF opens THEN FALSE ELSE @,
                 !.mark = IF opens \/ uri THEN All(e) ELSE @,
                 !.id = IF e.name \in Parts THEN @ ELSE e.id,
                 !.temp = IF opens THEN "" ELSE @,
                 !.t = IF e.name = "PublishComputationStarted" THEN Named(s, e.id) ELSE @,
                 !.nofile = IF e.name = "PublishComputationStarted" THEN FALSE ELSE @,
                 !.ran = IF e.name = "PublishComputationStarted" THEN "" ELSE @,
                 !.iters = IF e.name = "PublishComputationStarted" THEN {} ELSE @,
                 !.what = IF s.st = "task" THEN (IF e.name = "PublishComputationCompleted" THEN "Result" ELSE "Failure") ELSE @,
                 !.saidlost = IF e.name = "PublishMultipleTaskAssignmentsPayloadIOError" THEN @ + 1 ELSE @,
                 !.saidgarbled = IF e.name = "PublishMultipleTaskAssignmentsInvalidPayload" THEN @ + 1 ELSE @,
                 !.minsep = IF e.name = "PublishCheckinFinishedV2" THEN s.single.minsep ELSE @,
                 !.cut = IF opens /\ ~already THEN Append(@, Len(s.kinds) + 1) ELSE @,
                 !.tasks = IF opens /\ ~already THEN Append(@, IF e.name = "PublishComputationStarted" THEN e.id ELSE "")
                           ELSE @,
                 !.texts = IF silent \/ e.text = "" THEN @ ELSE Append(@, [at |-> Len(s.kinds) + 1, text |-> e.text]),
                 !.kinds = IF silent \/ already THEN @ ELSE Append(@, Kind(e.name))]

\* Every way the run can end.
Finished(s, e) == s.st = "stopped" \/ s.st = "next"

\* ---- what the history keeps ---------------------------------------------------------------
RECURSIVE Concat(_, _)
Concat(p, i) == IF i > Len(p) THEN <<>> ELSE p[i].events \o Concat(p, i + 1)
RECURSIVE Over(_, _, _)
Over(p, f, i) == IF i > Len(p) THEN 0 ELSE p[i][f] + Over(p, f, i + 1)
\* The first thing that went wrong in the events a to b.
Text(s, a, b) == LET m == Sel(s.texts, LAMBDA x : x.at >= a /\ x.at <= b) IN IF m = <<>> THEN "" ELSE m[1].text
From(s, i) == s.cut[i]
To(s, i) == IF i = Len(s.cut) THEN Len(s.kinds) ELSE s.cut[i + 1] - 1
PhaseName(k) == CASE k = "ELIGIBILITY_CHECKIN_STARTED" -> "ELIGIBILITY_EVAL_CHECKIN"
                  [] k = "ELIGIBILITY_COMPUTATION_STARTED" -> "ELIGIBILITY_COMPUTATION"
                  [] k = "MULTIPLE_TASK_ASSIGNMENTS_STARTED" -> "MULTIPLE_TASK_ASSIGNMENTS"
                  [] k = "CHECKIN_STARTED" -> "CHECKIN"
                  [] k = "COMPUTATION_STARTED" -> "COMPUTATION"
                  [] OTHER -> "UPLOAD"
Kept3(s, e) ==
  /\ e.session = s.f.session /\ e.pop = s.f.pop
  /\ s.w >= 0 => e.min = s.w /\ e.max = s.w + 100
  /\ ~e.token                                        \* the token stays out of the history
  /\ e.minsep = s.minsep
  /\ IF s.f.phases
       THEN /\ Len(e.phases) = Len(s.cut)
            /\ e.top.events = SubSeq(s.kinds, 1, IF s.cut = <<>> THEN Len(s.kinds) ELSE s.cut[1] - 1)
            /\ e.top.text = Text(s, 1, IF s.cut = <<>> THEN Len(s.kinds) ELSE s.cut[1] - 1)
            \* Nothing is counted for two phases, and nothing is left out.
            /\ LET sum == <<Over(e.phases, "down", 1), Over(e.phases, "up", 1), Over(e.phases, "ms", 1)>> IN
               /\ \A i \in 1 .. 3 : sum[i] <= All(e)[i]
               /\ <<e.down, e.up, e.ms>> = All(e) \/ sum = All(e)
            /\ \A i \in DOMAIN e.phases :
                 LET p == e.phases[i] IN
                 /\ p.events = SubSeq(s.kinds, From(s, i), To(s, i))
                 /\ p.phase = PhaseName(p.events[1])
                 /\ p.phase = "COMPUTATION" => p.task = s.tasks[i]
                 /\ p.phase = "CHECKIN" => p.task \in {"", s.single.n}
                 /\ p.text = Text(s, From(s, i), To(s, i))
       ELSE /\ e.phases = <<>>
            /\ e.top.events = s.kinds
            /\ e.top.text = Text(s, 1, Len(s.kinds))
            /\ <<e.down, e.up, e.ms>> = All(e)

Faulty(sp, f) == sp.has /\ \E i \in DOMAIN sp.pols :
                   LET p == sp.pols[i] IN
                   \/ p.kind = "da" /\ (p.make # 0 \/ (p.error # 0 /\ p.have < p.min))
                   \/ p.kind = "tf" /\ (p.tf # "ok" \/ ~f.tflite)

\* A source fails on which alone the eligibility of some task depends.
Decisive(sp, f) ==
  sp.has /\ \E i \in DOMAIN sp.tasks :
    LET t == sp.tasks[i]
        bad(k) == sp.pols[k + 1].kind = "da" /\ (sp.pols[k + 1].make # 0 \/ (sp.pols[k + 1].error # 0 /\ sp.pols[k + 1].have < sp.pols[k + 1].min)) IN
    /\ \E k \in Range(t.pols) : bad(k)
    /\ \A k \in Range(t.pols) : bad(k) \/ Passes(sp.pols[k + 1], t.n, f)

Tempt(s, e) ==
  CASE s.st \in {"eetted", "oned"} -> [s EXCEPT !.temp = e.r]
    [] s.st = "given" -> IF e.r = "OK" THEN s ELSE [s EXCEPT !.lost = @ + 1]
    [] s.st = "task" -> [s EXCEPT !.nofile = e.r # "OK"]
    [] OTHER -> Wrong

Count(q, T(_)) == Len(Sel(q, T))
Step(s, e) ==
  IF s.st = "none" THEN (IF e.e = "start" THEN Begin(e) ELSE Wrong)
  ELSE CASE e.e = "conds" -> IF s.st = "start" THEN [s EXCEPT !.st = IF e.ok THEN "met" ELSE "unmet"] ELSE s
         [] e.e = "pub" -> Said(s, e)
         [] e.e = "eet" ->
              IF s.st = "eet" /\ e.cb = s.uri
                THEN [s EXCEPT !.st = "eetted", !.r = e.r, !.parses = e.parses, !.temp = "", !.w = e.w,
                               !.nonfatal = Faulty(e.spec, s.f),
                               !.faulty = Decisive(e.spec, s.f)] ELSE Wrong
         [] e.e = "eeterr" -> IF s.st = "stopped" THEN [s EXCEPT !.w = e.w] ELSE Wrong
         [] e.e = "dbread" -> IF s.st = "eligible" THEN [s EXCEPT !.dbbad = ~e.ok] ELSE s
         [] e.e = "temp" -> Tempt(s, e)
         [] e.e = "multi" ->
              IF s.st = "many" /\ e.cb = s.uri /\ (e.cb => s.part = (e.count < Len(e.names)))
                THEN [s EXCEPT !.st = "given", !.r = e.r, !.pool = e.tasks, !.w = e.w,
                               !.lost = Count(e.tasks, LAMBDA t : t.fetch # 0),
                               !.garbled = Count(e.tasks, LAMBDA t : t.fetch = 0 /\ t.defect = "parse")] ELSE Wrong
         [] e.e = "checkin" ->
              IF s.st = "one" /\ e.cb = s.uri /\ (e.cb => s.id = e.task.n)
                THEN [s EXCEPT !.st = "oned", !.r = e.r, !.single = e.task, !.pool = Append(@, e.task), !.temp = "", !.w = e.w]
                ELSE Wrong
         [] e.e = "look" ->
              IF (e.kind = "elig" /\ s.st = "eligible") \/ (e.kind = "fed" /\ s.st = "task" /\ e.task = s.id)
                THEN [s EXCEPT !.iters = @ \cup ({e.made} \ {0})] ELSE Wrong
         [] e.e = "model" ->
              IF (e.m = "eet" /\ s.st = "eligible") \/ (s.st = "task" /\ e.m = s.id) THEN s ELSE Wrong
         [] e.e = "ran" -> [s EXCEPT !.ran = e.r, !.iters = @ \cup {e.iters[i] : i \in DOMAIN e.iters}]
         [] e.e = "commit" ->
              IF s.st # "computed" THEN s
              ELSE [s EXCEPT !.st = IF e.ok THEN "kept" ELSE "next",
                             !.cut = Append(@, Len(s.kinds) + 1), !.tasks = Append(@, ""),
                             !.kinds = Append(@, IF s.what = "Result" THEN "RESULT_UPLOAD_STARTED" ELSE "FAILURE_UPLOAD_STARTED")]
         [] e.e = "report" ->
              IF s.st = "upload" /\ e.ok = (s.what = "Result")
                THEN [s EXCEPT !.st = "reported", !.r = e.r, !.w = e.w] ELSE Wrong
         [] e.e = "done" -> IF s.st = "next" THEN s ELSE Wrong
         [] e.e = "result" ->
              IF Finished(s, e) THEN [s EXCEPT !.st = "over"] ELSE Wrong
         [] e.e = "stored" -> IF s.st = "over" /\ Kept3(s, e) THEN s ELSE Wrong
         [] OTHER -> s
Steps(s, e) == LET n == Step(s, e) IN IF n.st = "wrong" THEN {} ELSE {n}
============================================================================
