------------------------------ MODULE LocalRun ------------------------------
(* A computation on the device alone: a plan file, inputs named by the        *)
(* caller, examples of the device, an outcome that is returned and told.      *)
EXTENDS RunBase, Integers

DA == INSTANCE RunData

Bindings(p) == {<<p[i].k, p[i].v>> : i \in DOMAIN p}
Has(p, k) == \E i \in DOMAIN p : p[i].k = k
ValueOf(p, k) == p[CHOOSE i \in DOMAIN p : p[i].k = k].v

\* ---- what the model is given --------------------------------------------------
\* Resources the plan has no use for are left out.
Inputs(f) ==
  {<<"out_dir", f.out>>} \cup
  (IF f.many THEN {<<ValueOf(f.names, f.res[i].k), f.res[i].v>> : i \in {j \in DOMAIN f.res : Has(f.names, f.res[j].k)}}
   ELSE {<<"in_dir", f.in>>})
Complete(f) == {x[1] : x \in Inputs(f)} = Range(f.specs)
Clear(f) == ~(f.many /\ f.in # "")
Usable(f) == f.plan = "ok" /\ f.tflite /\ Clear(f) /\ Complete(f)

\* ---- outcome ----------------------------------------------------------------------
\* What is published, and what is returned to the caller.
Outcomes(s) ==
  LET f == s.f IN
  CASE f.plan = "missing" -> {"IOError"}
    [] f.plan # "ok" -> {"InvalidArgument"}
    [] ~f.tflite -> {"TensorflowError"}
    [] ~Clear(f) \/ ~Complete(f) -> {"InvalidArgument"}
    [] s.ran = "OK" -> {"Completed"}
    [] s.ran = "Cancelled" -> {"Interrupted"}
    [] s.ran = "InvalidArgument" /\ s.iters # {} ->
         (IF 1 \in s.iters THEN {"Interrupted"} ELSE {}) \cup (IF s.iters \ {1} # {} THEN {"ExampleIteratorError"} ELSE {})
    [] s.ran = "InvalidArgument" -> {"TensorflowError"}
    [] OTHER -> {}
Kind(o) == CASE o = "IOError" -> "COMPUTATION_ERROR_IO" [] o = "InvalidArgument" -> "COMPUTATION_ERROR_INVALID_ARGUMENT"
             [] o = "TensorflowError" -> "COMPUTATION_ERROR_TENSORFLOW" [] o = "Completed" -> "COMPUTATION_FINISHED"
             [] o = "Interrupted" -> "COMPUTATION_CLIENT_INTERRUPTED" [] OTHER -> "COMPUTATION_ERROR_EXAMPLE_ITERATOR"
Returned(s, r) ==
  CASE s.out = "unmet" -> r = "CANCELLED"
    [] s.out = "Completed" -> r = "OK"
    [] s.out = "Interrupted" -> r = "CANCELLED"
    [] OTHER -> r \notin {"OK", "CANCELLED"}

\* ---- the run -------------------------------------------------------------------------
New == [at |-> "none"]
Wrong == [at |-> "wrong"]
Begin(e) == [at |-> "start", f |-> e, t |-> e.task, ran |-> "", iters |-> {}, looked |-> <<>>, reads |-> <<>>, slices |-> "",
             modelled |-> FALSE, out |-> "", text |-> ""]
Conds(s, e) ==
  IF s.at = "start" THEN [s EXCEPT !.at = IF e.ok THEN "met" ELSE "unmet"] ELSE IF s.at = "work" THEN s ELSE Wrong
Looked(s, e) ==
  IF /\ s.at = "work" /\ s.modelled /\ e.kind = "local"
     /\ e.session = s.f.session /\ e.in = s.f.in /\ e.out = s.f.out /\ Bindings(e.res) = Bindings(s.f.res)
     /\ \E i \in DOMAIN s.t.queries : s.t.queries[i].u = e.u
    THEN [s EXCEPT !.looked = Append(@, e.u), !.iters = @ \cup ({e.made} \ {0})] ELSE Wrong
Modelled(s, e) ==
  IF /\ s.at = "work" /\ ~s.modelled /\ Usable(s.f)
     /\ e.m = s.t.n /\ e.names /\ Bindings(e.inputs) = Inputs(s.f) \cup Bindings(s.f.consts)
    THEN [s EXCEPT !.modelled = TRUE] ELSE Wrong
Ran(s, e) ==
  IF /\ s.at = "work" /\ s.modelled /\ s.ran = ""
     /\ (\A i \in DOMAIN e.reads : DA!Read(s, s.t, e.reads[i])) /\ DA!Once(s, e)
    THEN [s EXCEPT !.reads = e.reads, !.ran = e.r, !.iters = @ \cup Range(e.iters)] ELSE Wrong
Tells(s, e) ==
  CASE s.at = "unmet" /\ e.name = "PublishTaskNotStarted" -> [s EXCEPT !.at = "told", !.out = "unmet", !.text = e.text]
    [] s.at = "met" /\ e.name = "PublishComputationStarted" -> [s EXCEPT !.at = "work"]
    [] s.at = "work" /\ \E o \in Outcomes(s) : e.name = "PublishComputation" \o o ->
         LET o == CHOOSE o \in Outcomes(s) : e.name = "PublishComputation" \o o
             done == o = "Completed" IN
         IF /\ done => e.examples = DA!Examples(s) /\ e.bytes = DA!Bytes(s)
            /\ (o = "TensorflowError" /\ s.ran # "") => e.tells = s.f.tflog
           THEN [s EXCEPT !.at = "told", !.out = o, !.text = e.text] ELSE Wrong
    [] OTHER -> Wrong
\* The history has the run, its outcome and the data used.
Kept3(s, e) ==
  LET kinds == IF s.out = "unmet" THEN <<"TRAIN_NOT_STARTED">> ELSE <<"COMPUTATION_STARTED", Kind(s.out)>>
      part == IF s.f.phases /\ s.out # "unmet" THEN e.phases[1] ELSE e.top
      a == DA!Counted(DA!Account(s)) IN
  /\ e.session = s.f.session
  /\ Len(e.phases) = IF s.f.phases /\ s.out # "unmet" THEN 1 ELSE 0
  /\ part.events = kinds
  /\ part.text = s.text
  /\ {x \in {<<part.data[i].u, part.data[i].n, part.data[i].bytes>> : i \in DOMAIN part.data} : DA!OnDevice(x[1])}
     = {<<a[i].u, a[i].n, a[i].bytes>> : i \in {j \in DOMAIN a : DA!OnDevice(a[j].u)}}
Step(s, e) ==
  IF s.at = "none" THEN (IF e.e = "start" THEN Begin(e) ELSE Wrong)
  ELSE CASE e.e = "conds" -> Conds(s, e)
         [] e.e = "look" -> Looked(s, e)
         [] e.e = "model" -> Modelled(s, e)
         [] e.e = "ran" -> Ran(s, e)
         [] e.e = "pub" -> Tells(s, e)
         [] e.e = "result" -> IF s.at = "told" /\ Returned(s, e.r) THEN [s EXCEPT !.at = "over"] ELSE Wrong
         [] e.e = "stored" -> IF s.at = "over" /\ Kept3(s, e) THEN s ELSE Wrong
         [] e.e = "misuse" -> Wrong
         [] OTHER -> s
Steps(s, e) == LET n == Step(s, e) IN IF n.at = "wrong" THEN {} ELSE {n}
============================================================================
