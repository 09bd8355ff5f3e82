------------------------------ MODULE Stopwatch ------------------------------
(* One stopwatch used from several threads, as they see it.  Every event has  *)
(* the time at which it was seen, in microseconds.                            *)
(*   new real              a watch, or one that measures nothing              *)
(*   start_call, start_ret a thread starts it                                 *)
(*   stop_call, stop_ret   the same thread stops it                           *)
(*   total_call, total_ret the time measured so far                           *)
(* Between start_ret and stop_call of a thread the watch surely runs; before  *)
(* start_call and after stop_ret it does not on account of that thread.  The  *)
(* time measured is that in which it runs for at least one thread: not less   *)
(* than was surely run when it was asked for, and not more than may have been *)
(* run when it was answered; and it never decreases.  Slack is what clocks    *)
(* read on different processors may differ by.                                *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANT Slack

New == [real |-> TRUE, now |-> 0, sure |-> {}, may |-> {}, low |-> 0, high |-> 0, asked |-> <<>>, told |-> 0]

At(s, at) ==
  LET d == at - s.now IN
  [s EXCEPT !.now = at, !.low = IF s.sure # {} THEN @ + d ELSE @, !.high = IF s.may # {} THEN @ + d ELSE @]

Steps(s, e) ==
  IF e.e = "new" THEN {[s EXCEPT !.real = e.real]}
  ELSE IF e.at < s.now THEN {}
  ELSE LET n == At(s, e.at) IN
  CASE e.e = "start_call" -> IF e.t \in s.may THEN {} ELSE {[n EXCEPT !.may = @ \cup {e.t}]}
    [] e.e = "start_ret" -> IF e.t \in s.may \ s.sure THEN {[n EXCEPT !.sure = @ \cup {e.t}]} ELSE {}
    [] e.e = "stop_call" -> IF e.t \in s.sure THEN {[n EXCEPT !.sure = @ \ {e.t}]} ELSE {}
    [] e.e = "stop_ret" -> IF e.t \in s.may \ s.sure THEN {[n EXCEPT !.may = @ \ {e.t}]} ELSE {}
    [] e.e = "total_call" -> {[n EXCEPT !.asked = (e.t :> [low |-> n.low, told |-> s.told]) @@ @]}
    [] e.e = "total_ret" ->
         IF e.t \notin DOMAIN s.asked THEN {}
         ELSE IF ~s.real THEN (IF e.v = 0 THEN {n} ELSE {})
         ELSE IF e.v >= s.asked[e.t].low - Slack /\ e.v <= n.high + Slack /\ e.v >= s.asked[e.t].told - Slack
         THEN {[n EXCEPT !.told = IF e.v > @ THEN e.v ELSE @]} ELSE {}
    [] OTHER -> {}
=============================================================================
