---------------------------- MODULE LocalRunImpl ----------------------------
(* The computation on the device as it is built: read the plan, gather the    *)
(* inputs, run the model over example sources, tell and store the outcome.    *)
(* Every plan, every set of resources given, every way a source or the model  *)
(* ends; the monitor of LocalRun watches.                                     *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
CONSTANTS Keys, MaxSources, Bug
VARIABLES m, mon
vars == <<m, mon>>
LR == INSTANCE LocalRun

Pair(k, v) == [k |-> k, v |-> v]
RECURSIVE List(_)
List(S) == IF S = {} THEN <<>> ELSE LET k == CHOOSE k \in S : TRUE IN <<k>> \o List(S \ {k})
Source(i, q) == [u |-> "app:/" \o ToString(i), make |-> q[1], error |-> q[2], have |-> q[3], parses |-> TRUE, outs |-> <<>>, size |-> 0]
Plans == {"ok", "missing", "unreadable", "nospec", "norouter"}
Start(plan, many, in, names, given, further, tflite, phases, qs) ==
  [e |-> "start", session |-> "s", plan |-> plan, many |-> many, in |-> in, out |-> "/o",
   names |-> [i \in DOMAIN List(names) |-> Pair(List(names)[i], "t" \o List(names)[i])],
   res |-> [i \in DOMAIN List(given) |-> Pair(List(given)[i], "/" \o List(given)[i])],
   consts |-> <<Pair("c", "1")>>,
   specs |-> <<"out_dir">> \o (IF many THEN [i \in DOMAIN List(names) |-> "t" \o List(names)[i]] ELSE <<"in_dir">>)
             \o (IF further THEN <<"x">> ELSE <<>>),
   tflite |-> tflite, phases |-> phases, tflog |-> FALSE,
   task |-> [n |-> "local", kind |-> "tf", queries |-> [i \in DOMAIN qs |-> Source(i, qs[i])]]]

Init == mon = LR!New /\ m = [pc |-> "begin", out |-> <<>>]
Emit(x, e) == [x EXCEPT !.out = Append(@, e)]
Pub(x, name, text, ex, by) ==
  Emit(x, [e |-> "pub", name |-> name, text |-> text, examples |-> ex, bytes |-> by, tells |-> FALSE])

Begin ==
  /\ m.pc = "begin"
  /\ \E plan \in Plans, many \in BOOLEAN, in \in {"", "/i"}, names, given \in SUBSET Keys, further, tflite, phases \in BOOLEAN,
        n \in 0..MaxSources : \E qs \in [1..n -> {<<0, 0, 0>>, <<0, 0, 2>>, <<13, 0, 0>>, <<0, 1, 1>>, <<0, 13, 1>>}] :
       LET f == Start(plan, many, in, names, given, further, tflite, phases, qs) IN
       /\ ~many => names = {} /\ in = "/i"
       /\ plan # "ok" => names = {} /\ given = {} /\ ~further /\ n = 0
       /\ m' = [pc |-> "conds", f |-> f, t |-> f.task, kinds |-> <<>>, text |-> "", data |-> <<>>, unmet |-> FALSE, outcome |-> "", left |-> 1,
                out |-> <<f>>]
Conds ==
  /\ m.pc = "conds"
  /\ \E ok \in BOOLEAN :
       LET a == Emit(m, [e |-> "conds", ok |-> ok]) IN
       m' = IF ok \/ Bug = "careless" THEN [Pub(a, "PublishComputationStarted", "", -1, -1) EXCEPT !.pc = "inputs", !.kinds = <<"COMPUTATION_STARTED">>]
            ELSE [Pub(a, "PublishTaskNotStarted", "no", -1, -1) EXCEPT !.pc = "return", !.kinds = <<"TRAIN_NOT_STARTED">>, !.unmet = TRUE, !.text = "no"]

\* The outcome is told and stored.
Tell(x, o, ex, by) ==
  LET text == IF o = "Completed" THEN "" ELSE "why" IN
  [Pub(x, "PublishComputation" \o o, text, ex, by)
     EXCEPT !.pc = "return", !.outcome = o, !.text = text, !.kinds = Append(@, LR!Kind(o))]
Gather(f) ==
  [i \in DOMAIN SelectSeq(f.res, LAMBDA r : Bug = "unknown" \/ LR!Has(f.names, r.k)) |->
     LET r == SelectSeq(f.res, LAMBDA r : Bug = "unknown" \/ LR!Has(f.names, r.k))[i] IN
     Pair(IF Bug = "keys" THEN r.k ELSE IF LR!Has(f.names, r.k) THEN LR!ValueOf(f.names, r.k) ELSE r.k, r.v)]
Inputs(f) == (IF f.many THEN Gather(f) ELSE <<Pair("in_dir", f.in)>>) \o <<Pair("out_dir", f.out)>>
Model ==
  /\ m.pc = "inputs"
  /\ LET f == m.f
         in == Inputs(f)
         fits == IF Bug = "fewer" THEN \A i \in DOMAIN in : in[i].k \in {f.specs[j] : j \in DOMAIN f.specs}
                 ELSE {in[i].k : i \in DOMAIN in} = {f.specs[j] : j \in DOMAIN f.specs} IN
     m' = IF f.plan = "missing" THEN Tell(m, "IOError", 0, 0)
          ELSE IF f.plan # "ok" THEN Tell(m, "InvalidArgument", 0, 0)
          ELSE IF ~f.tflite THEN (IF Bug = "silent" THEN [m EXCEPT !.pc = "return", !.outcome = "TensorflowError"] ELSE Tell(m, "TensorflowError", 0, 0))
          ELSE IF (f.many /\ f.in # "" /\ Bug # "both") \/ ~fits THEN Tell(m, "InvalidArgument", 0, 0)
          ELSE [Emit(m, [e |-> "model", m |-> "local", names |-> TRUE, inputs |-> in \o (IF Bug = "noconst" THEN <<>> ELSE f.consts)])
                  EXCEPT !.pc = "read"]
\* Every source in turn, two examples asked of each; reading stops at a failure.
RECURSIVE Reads(_, _)
Reads(qs, i) ==
  IF i > Len(qs) THEN [reads |-> <<>>, iters |-> <<>>]
  ELSE LET q == qs[i]
           n == IF q.make # 0 THEN 0 ELSE IF q.have < 2 THEN q.have ELSE 2
           code == IF q.make # 0 THEN q.make ELSE IF q.have < 2 THEN q.error ELSE 0
           end == IF code # 0 THEN LR!DA!Code(code) ELSE IF q.have < 2 THEN "OUT_OF_RANGE" ELSE "OK"
           r == [u |-> q.u, want |-> 2, n |-> n, bytes |-> 7 * n, vals |-> [k \in 1..n |-> k - 1], end |-> end, inorder |-> TRUE]
           rest == IF code # 0 THEN [reads |-> <<>>, iters |-> <<>>] ELSE Reads(qs, i + 1) IN
       [reads |-> <<r>> \o rest.reads, iters |-> (IF code = 0 THEN <<>> ELSE <<code>>) \o rest.iters]
Sum(q, f) == LET S[i \in 0..Len(q)] == IF i = 0 THEN 0 ELSE S[i - 1] + q[i][f] IN S[Len(q)]
RECURSIVE Looks(_, _, _)
Looks(x, reads, i) ==
  IF i > Len(reads) THEN x
  ELSE LET q == LR!DA!QueryOf(x.t, reads[i].u) IN
       Looks(Emit(x, [e |-> "look", u |-> q.u, kind |-> "local", session |-> "s", in |-> x.f.in, out |-> x.f.out, res |-> x.f.res, made |-> q.make]),
             reads, i + 1)
Work ==
  /\ m.pc = "read"
  /\ \E fate \in {"OK", "InvalidArgument", "Cancelled"} :
       LET rd == Reads(m.t.queries, 1)
           r == IF rd.iters # <<>> THEN "InvalidArgument" ELSE fate
           a == Emit(Looks(m, rd.reads, 1), [e |-> "ran", m |-> "local", r |-> r, iters |-> rd.iters, reads |-> rd.reads])
           code == IF rd.iters = <<>> THEN 0 ELSE rd.iters[1]
           made == SelectSeq(rd.reads, LAMBDA x : LR!DA!Made(m.t, x.u))
           b == [a EXCEPT !.data = [i \in DOMAIN made |-> [u |-> made[i].u, n |-> made[i].n, bytes |-> made[i].bytes, first |-> "none"]]] IN
       m' = CASE r = "OK" -> Tell(b, "Completed", Sum(rd.reads, "n"), Sum(rd.reads, "bytes"))
              [] r = "Cancelled" -> Tell(b, "Interrupted", 0, 0)
              [] code = 1 /\ Bug # "cancel" -> Tell(b, "Interrupted", 0, 0)
              [] code # 0 /\ Bug # "blame" -> Tell(b, "ExampleIteratorError", 0, 0)
              [] OTHER -> Tell(b, "TensorflowError", 0, 0)
Return ==
  /\ m.pc = "return"
  /\ LET o == m.outcome
         r == CASE m.unmet -> "CANCELLED" [] o = "Completed" -> "OK" [] o = "Interrupted" -> "CANCELLED"
                [] o = "IOError" -> "NOT_FOUND" [] Bug = "ok" -> "OK" [] OTHER -> "INTERNAL"
         part == [phase |-> "", task |-> "", events |-> m.kinds, text |-> m.text, data |-> m.data]
         none == [part EXCEPT !.events = <<>>, !.text = "", !.data = <<>>]
         phased == m.f.phases /\ ~m.unmet IN
     m' = [Emit(Emit(m, [e |-> "result", r |-> r]),
                [e |-> "stored", session |-> "s", top |-> IF phased THEN none ELSE part, phases |-> IF phased THEN <<part>> ELSE <<>>])
             EXCEPT !.pc = "gone"]
Watch == /\ m.out # <<>>
         /\ mon' = LR!Step(mon, Head(m.out))
         /\ m' = [m EXCEPT !.out = Tail(@)]
Next == Watch \/ (m.out = <<>> /\ (Begin \/ Conds \/ Model \/ Work \/ Return) /\ UNCHANGED mon)
Spec == Init /\ [][Next]_vars
Right == mon.at # "wrong"
Together == m.pc = "gone" /\ m.out = <<>> => mon.at = "over"
============================================================================
