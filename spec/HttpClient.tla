----------------------------- MODULE HttpClient -----------------------------
(* What the users of the HTTP client rely on.  Requests are enqueued, then     *)
(* performed in batches.  What a server does for a request is its plan:        *)
(*   code, must, may   status and headers of the final response (must: those   *)
(*                     to be reported, may: those that may be left out)        *)
(*   len, wire         the size of the final body, as delivered and as sent    *)
(*   heads, whole      whether the final headers / the whole response arrive   *)
(*   many              an endless chain of redirections                        *)
(*   resend            a redirected request with a body                        *)
(*   hops              the number of redirections                              *)
(*   supported         whether the client knows the method                     *)
(*   hold              the response stops until the request is over            *)
(*   up, chunked       the request's body: its size, whether sent in chunks    *)
(* A request is "queued", then "flying", "started" (its response), "over".     *)
EXTENDS Integers, Sequences, FiniteSets, TLC

New == [r |-> <<>>, batch |-> {}, bad |-> FALSE, live |-> FALSE]
Req(e) == [phase |-> "queued", plan |-> e.plan, method |-> e.method, got |-> 0, cancelled |-> FALSE,
           firm |-> FALSE,      \* cancelled in a callback: nothing can be on its way any more
           refused |-> FALSE, done |-> FALSE, used |-> FALSE, final |-> FALSE,
           spared |-> FALSE]    \* its batch was given up before anything was seen of it
Known(s, id) == id \in DOMAIN s.r
Set(s, id, q) == [s EXCEPT !.r = [x \in DOMAIN s.r |-> IF x = id THEN q ELSE s.r[x]]]

\* The reported headers: the final response's, in order, possibly without those of `may`.
RECURSIVE Same(_, _, _)
Same(h, must, may) ==
  IF h = <<>> THEN must = <<>>
  ELSE \/ must # <<>> /\ Head(h) = Head(must) /\ Same(Tail(h), Tail(must), may)
       \/ \E i \in DOMAIN may : Head(h) = may[i] /\ Same(Tail(h), must, may)
Performing(s, id) == id \in s.batch
\* A batch with a handle that cannot be performed (any more) is given up at once.
GivenUp(s) == s.bad \/ (~s.live /\ \E i \in s.batch : s.r[i].cancelled)
Live(s) == [s EXCEPT !.live = TRUE]

\* Whether a request that is not cancelled may end in this error.
Fails(q, st) ==
  /\ st \notin {"OK", "CANCELLED"}
  /\ IF ~q.plan.supported THEN TRUE
     ELSE IF q.plan.many THEN st = "OUT_OF_RANGE" \/ q.plan.resend
     ELSE ~q.plan.whole \/ (q.plan.resend /\ q.phase = "flying")

Steps(s, e) ==
  CASE e.e = "enqueue" -> IF Known(s, e.id) THEN {} ELSE {[s EXCEPT !.r = (e.id :> Req(e)) @@ s.r]}
    [] e.e = "perform" ->
         LET ids == {e.ids[i] : i \in DOMAIN e.ids}
             new == {i \in ids : s.r[i].phase = "queued" /\ ~s.r[i].cancelled /\ ~s.r[i].used}
             \* those perhaps never begun
             old == {i \in ids : s.r[i].spared /\ s.r[i].phase = "flying" /\ ~s.r[i].cancelled} IN
         {LET fit == new \cup also IN
          [s EXCEPT !.batch = ids, !.bad = fit # ids, !.live = FALSE,
                    !.r = [x \in DOMAIN s.r |-> IF x \in fit THEN [s.r[x] EXCEPT !.phase = "flying", !.used = TRUE]
                                                 ELSE IF x \in ids THEN [s.r[x] EXCEPT !.used = TRUE] ELSE s.r[x]]] : also \in SUBSET old}
    \* The server sees the request as it was made.
    [] e.e = "asked" -> IF Known(s, e.id) /\ s.r[e.id].used /\ e.method = s.r[e.id].method /\ e.body /\ e.extra /\ e.enc
                           /\ s.r[e.id].plan.supported
                        THEN {IF Performing(s, e.id) THEN Live(s) ELSE s} ELSE {}
    [] e.e = "start" ->
         LET q == s.r[e.id] IN
         IF /\ Performing(s, e.id)
            /\ (q.phase = "flying" \/ (q.phase = "over" /\ q.cancelled /\ ~q.firm /\ ~q.final))
            /\ q.plan.heads /\ q.plan.supported
            /\ e.code = q.plan.code /\ Same(e.hdrs, q.plan.must, q.plan.may)
         THEN {Set(Live(s), e.id, IF q.phase = "over" THEN [q EXCEPT !.final = TRUE]
                            ELSE [q EXCEPT !.phase = IF e.refuse THEN "over" ELSE "started", !.refused = e.refuse])} ELSE {}
    [] e.e = "body" ->
         LET q == s.r[e.id] IN
         IF /\ Performing(s, e.id) /\ ~q.refused
            /\ (q.phase = "started" \/ (q.phase = "over" /\ q.cancelled /\ ~q.done))
            /\ e.match /\ q.got + e.n <= q.plan.len
         THEN {Set(s, e.id, [q EXCEPT !.got = q.got + e.n, !.phase = IF e.refuse THEN "over" ELSE q.phase, !.refused = e.refuse])}
         ELSE {}
    [] e.e = "err" ->
         LET q == s.r[e.id] IN
         IF /\ Performing(s, e.id)
            /\ \/ q.phase = "flying" /\ (IF q.cancelled /\ e.st = "CANCELLED" THEN TRUE
                                         ELSE Fails(q, e.st) /\ ~(q.cancelled /\ q.plan.hold))
               \* the whole batch is given up
               \/ q.phase = "flying" /\ GivenUp(s) /\ e.st # "OK"
               \/ q.phase # "started" /\ q.cancelled /\ GivenUp(s) /\ e.st = "CANCELLED"
         THEN {Set(s, e.id, [q EXCEPT !.phase = "over"])} ELSE {}
    [] e.e = "berr" ->
         LET q == s.r[e.id] IN
         IF /\ Performing(s, e.id)
            \* (another thread's cancellation may overtake the start it just missed)
            /\ \/ q.phase = "started"
               \/ q.phase = "flying" /\ q.cancelled /\ e.st = "CANCELLED"
               \* (or come while the callback refuses)
               \/ q.phase = "over" /\ q.refused /\ q.cancelled /\ ~q.firm /\ ~q.final /\ e.st = "CANCELLED"
            /\ IF q.cancelled /\ e.st = "CANCELLED" THEN TRUE ELSE Fails(q, e.st) /\ ~q.firm /\ ~(q.cancelled /\ q.plan.hold)
         THEN {Set(s, e.id, [q EXCEPT !.phase = "over", !.final = @ \/ q.refused])} ELSE {}
    [] e.e = "done" ->
         LET q == s.r[e.id] IN
         IF /\ Performing(s, e.id) /\ q.phase = "started" /\ ~q.firm
            /\ q.plan.whole /\ q.got = q.plan.len /\ e.code = q.plan.code
         THEN {Set(s, e.id, [q EXCEPT !.phase = "over", !.done = TRUE])} ELSE {}
    [] e.e = "cancel" -> {Set(s, e.id, [s.r[e.id] EXCEPT !.cancelled = TRUE, !.firm = @ \/ e.where = "callback"])}
    [] e.e = "cancelled" -> {s}
    \* Everything performed is over, unless some handle could not be performed.
    [] e.e = "performed" ->
         IF /\ s.bad => e.st # "OK"
            /\ ~GivenUp(s) => e.st = "OK"
            /\ e.st = "OK" => \A i \in s.batch : s.r[i].phase = "over"
         THEN {[s EXCEPT !.batch = {}, !.bad = FALSE,
                         !.r = [x \in DOMAIN s.r |-> IF x \in s.batch THEN [s.r[x] EXCEPT !.spared = e.st # "OK"] ELSE s.r[x]]]} ELSE {}
    [] e.e = "bytes" ->
         LET q == s.r[e.id] IN
         IF /\ e.sent >= 0 /\ e.got >= 0
            /\ ~q.used => e.sent = 0 /\ e.got = 0
            /\ q.done /\ q.plan.hops = 0 => (IF q.plan.chunked THEN e.sent >= q.plan.up ELSE e.sent = q.plan.up) /\ e.got \in {q.plan.len, q.plan.wire}
         THEN {s} ELSE {}
    [] e.e = "overdue" -> {}
    [] e.e = "end" -> {s}
    [] OTHER -> {}
=============================================================================
