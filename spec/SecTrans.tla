------------------------------ MODULE SecTrans ------------------------------
(* One device's part in a secure aggregation over HTTP, as seen at its        *)
(* boundaries: messages the protocol sends, requests that reach the server,   *)
(* replies handed back to the protocol, and the final result.                 *)
EXTENDS Integers, Sequences, FiniteSets

NoOp == [on |-> FALSE, name |-> "", pause |-> -1, slept |-> FALSE]
Nothing == [k |-> "nothing", h |-> 0]
Failure == [k |-> "failure", h |-> 0]
Blank == [k |-> "empty", h |-> 0]

\* ph: the message that comes next; at: what the current message still has to do;
\* h: its payload; ups: uploads still to be made; op: the operation being polled;
\* hold: what the protocol is to receive next; failed: a request or operation failed;
\* last: how the final request went; unfair: the protocol received something it may refuse;
\* abort: "no", "sent" (message), "told" (request).
New(c) == [cfg |-> c, ph |-> "adv", at |-> "", h |-> 0, ups |-> {}, op |-> NoOp, hold |-> Nothing, fair |-> TRUE,
           unfair |-> FALSE, stop |-> FALSE, failed |-> FALSE, last |-> "", abort |-> "no", ah |-> 0, done |-> FALSE]

After(k) == CASE k = "adv" -> "share" [] k = "share" -> "masked" [] k = "masked" -> "unmask" [] OTHER -> "end"
Reply(k) == CASE k = "adv" -> "share_keys_request" [] k = "share" -> "masked_input_request" [] OTHER -> "unmasking_request"
PauseOk(p, ms) == /\ ms >= 0 /\ ms <= 60000
                  /\ (p >= 0 => ms = IF p > 60000 THEN 60000 ELSE p)

\* ------------------------------------------------------------------- messages
SendSteps(s, e) ==
  IF e.k = "abort"
  THEN IF s.abort = "no" /\ (s.stop \/ s.unfair) /\ s.last # "OK"
       THEN {[s EXCEPT !.abort = "sent", !.ah = e.h]} ELSE {}
  ELSE IF e.k = "empty"
  THEN IF s.ph = "end" THEN {s} ELSE {}
  ELSE IF e.k = s.ph /\ s.cfg.valid /\ s.abort = "no" /\ (s.hold = Nothing \/ s.stop)
  THEN {[s EXCEPT !.ph = After(e.k), !.at = IF e.k = "masked" THEN "up" ELSE e.k, !.h = e.h,
                  !.ups = IF e.k = "masked" THEN {"masked"} \cup (IF s.cfg.ckpt THEN {"plain"} ELSE {}) ELSE {},
                  !.hold = Nothing]}
  ELSE {}

\* ------------------------------------------------------------------- requests
Fail(s) == [s EXCEPT !.at = "", !.hold = Failure, !.failed = TRUE, !.op = NoOp]
\* The reply to a round's request, or to a poll of its operation.
Operated(s, kind, e) ==
  IF e.st # "OK" THEN Fail(s)
  ELSE IF ~e.rep.done THEN [s EXCEPT !.at = "poll:" \o kind, !.op = [on |-> TRUE, name |-> e.rep.op, pause |-> e.rep.pause, slept |-> FALSE]]
  ELSE IF e.rep.err # "" \/ e.rep.k # Reply(kind) THEN Fail(s)
  ELSE [s EXCEPT !.at = "", !.op = NoOp, !.hold = [k |-> e.rep.k, h |-> e.rep.h], !.fair = e.rep.fair]
ReqSteps(s, e) ==
  CASE e.k \in {"adv", "share"} -> IF s.at = e.k /\ e.h = s.h THEN {Operated(s, e.k, e)} ELSE {}
    [] e.k = "up" ->
         IF s.ups # {} /\ e.which \in s.ups /\ s.at \in {"up", ""}
            /\ e.h = (IF e.which = "masked" THEN s.h ELSE s.cfg.ckpth)
         THEN LET n == [s EXCEPT !.ups = @ \ {e.which}]
              IN {IF e.st = "FAIL" THEN Fail(n)
                  ELSE IF n.ups = {} /\ n.at = "up" THEN [n EXCEPT !.at = "submit"] ELSE n}
         ELSE {}
    [] e.k = "submit" ->
         IF s.at = "submit" /\ e.masked = s.cfg.masked /\ e.plain = (IF s.cfg.ckpt THEN s.cfg.plain ELSE "")
         THEN {Operated(s, "masked", e)} ELSE {}
    [] e.k = "get" ->
         IF s.op.on /\ s.op.slept /\ e.op = s.op.name
         THEN {Operated(s, CHOOSE k \in {"adv", "share", "masked"} : s.at = "poll:" \o k, e)} ELSE {}
    [] e.k = "unmask" ->
         IF s.at = "unmask" /\ e.h = s.h
         THEN {IF e.st = "FAIL" THEN [Fail(s) EXCEPT !.last = "FAIL"] ELSE [s EXCEPT !.at = "", !.last = "OK", !.hold = Blank]} ELSE {}
    [] e.k = "abort" -> IF s.abort = "sent" /\ e.h = s.ah THEN {[s EXCEPT !.abort = "told"]} ELSE {}
    [] OTHER -> {}
SleepSteps(s, e) == IF s.op.on /\ ~s.op.slept /\ PauseOk(s.op.pause, e.ms) THEN {[s EXCEPT !.op.slept = TRUE]} ELSE {}

\* -------------------------------------------------------------------- replies
\* Nothing is known about what is received after the application asked to stop,
\* except that every received message is a real one.
RecvSteps(s, e) ==
  IF s.stop THEN {[s EXCEPT !.hold = Nothing, !.unfair = TRUE]}
  ELSE IF s.at = "" /\ s.hold # Nothing
          /\ e.ok = (s.hold # Failure) /\ (e.ok => e.k = s.hold.k /\ (e.k # "empty" => e.h = s.hold.h))
       THEN {[s EXCEPT !.hold = Nothing, !.unfair = @ \/ (e.ok /\ ~s.fair)]}
       ELSE {}
AbortedSteps(s, e) ==
  IF e.client THEN IF s.stop /\ (s.abort = "told" \/ s.ph = "end") THEN {s} ELSE {}
  ELSE IF s.unfair \/ s.stop THEN {s} ELSE {}
RetSteps(s, e) ==
  IF s.done \/ s.abort = "sent" THEN {}
  ELSE IF e.st = "OK" THEN IF s.cfg.valid /\ s.last = "OK" /\ ~s.failed /\ s.abort = "no" /\ e.sum \in {1, -2}
                           THEN {[s EXCEPT !.done = TRUE]} ELSE {}
  ELSE IF s.failed \/ s.stop \/ s.unfair \/ ~s.cfg.valid THEN {[s EXCEPT !.done = TRUE]} ELSE {}

Steps(s, e) ==
  IF s.done THEN {}
  ELSE CASE e.e = "stop" -> {[s EXCEPT !.stop = TRUE]}
    [] e.e = "send" -> SendSteps(s, e)      [] e.e = "req" -> ReqSteps(s, e)
    [] e.e = "sleep" -> SleepSteps(s, e)    [] e.e = "recv" -> RecvSteps(s, e)
    [] e.e = "aborted" -> AbortedSteps(s, e) [] e.e = "ret" -> RetSteps(s, e)
    [] OTHER -> {}
=============================================================================
