--------------------------- MODULE HttpClientImpl ---------------------------
(* The client: the request handles with the functions the transfer library     *)
(* calls back, the loop that performs a batch, and cancellation from other     *)
(* threads or from within the callbacks.  The library is represented by the    *)
(* sequence of things it hands over for a server's answer:                     *)
(*   block   the header lines of one response (interim, redirection or final)  *)
(*   body    a block of the final body         trailer  header lines after it  *)
(*   end     the outcome of the transfer                                       *)
EXTENDS HttpClient

CONSTANTS N,           \* requests
          Small,       \* fewer kinds of answers
          ResultUsed,  \* the outcome of the transfer decides what is reported
          CancelEarly, \* cancelling before performing has an effect
          StopOnRefusal, \* a refused response ends the transfer
          FinalOnly,   \* interim responses, followed redirections and trailers are not starts
          LazyStart,   \* a redirection with nowhere to go is a final response
          Detach       \* the rest of a batch that is given up ends with it

Block(c, loc) == [k |-> "block", code |-> c, loc |-> loc]
Before == IF Small THEN {<<>>, <<Block(302, TRUE)>>}
          ELSE {<<>>, <<Block(100, FALSE)>>, <<Block(301, TRUE)>>, <<Block(307, TRUE)>>,
                <<Block(301, TRUE), Block(103, FALSE)>>, <<Block(302, TRUE), Block(301, TRUE)>>}
Finals == IF Small THEN {200} ELSE {200, 404, 301, 302}
Cuts == IF Small THEN {"no", "body"} ELSE {"no", "nothing", "head", "body"}
Answers == {[before |-> b, final |-> f, n |-> n, trailer |-> t, cut |-> c, supported |-> u] :
              b \in Before, f \in Finals, n \in (IF Small THEN {1} ELSE 0..2), t \in (IF Small THEN {FALSE} ELSE BOOLEAN), c \in Cuts, u \in BOOLEAN}
Legal(a) == /\ a.cut = "body" => a.n > 0
            /\ a.trailer => a.cut = "no"
            /\ ~a.supported => a.before = <<>> /\ a.final = 200 /\ a.n <= 1 /\ ~a.trailer /\ a.cut = "no"
Bodies(n) == [i \in 1..n |-> [k |-> "body"]]
Items(a) == CASE a.cut = "nothing" -> <<[k |-> "end", fine |-> FALSE]>>
              [] a.cut = "head" -> a.before \o <<[k |-> "end", fine |-> FALSE]>>
              [] a.cut = "body" -> a.before \o <<Block(a.final, FALSE)>> \o Bodies(a.n - 1) \o <<[k |-> "end", fine |-> FALSE]>>
              [] OTHER -> a.before \o <<Block(a.final, FALSE)>> \o Bodies(a.n) \o
                            (IF a.trailer THEN <<[k |-> "trailer"]>> ELSE <<>>) \o <<[k |-> "end", fine |-> TRUE]>>
PlanOf(a) == [code |-> a.final, must |-> <<a.final>>, may |-> <<>>, len |-> a.n, wire |-> a.n,
              heads |-> a.cut \in {"no", "body"}, whole |-> a.cut = "no", many |-> FALSE, resend |-> FALSE,
              hops |-> Len(a.before), supported |-> a.supported, hold |-> FALSE, up |-> 0, chunked |-> FALSE]

Ids == 1..N
VARIABLES ans,      \* what the server will do for each request
          items,    \* what the library has yet to hand over
          h,        \* the handles
          pc,       \* the performing thread: "enqueue", "adding", "loop", "out"
          nxt,      \* the next request to be added
          cbk,      \* the request whose callback is being run, with what (or 0)
          times,    \* cancellations from other threads so far
          mon, ok
vars == <<ans, items, h, pc, nxt, cbk, times, mon, ok>>

RECURSIVE Feed(_, _)
Feed(m, es) == IF es = <<>> THEN <<TRUE, m>>
               ELSE LET n == Steps(m, Head(es)) IN IF n = {} THEN <<FALSE, m>> ELSE Feed(CHOOSE x \in n : TRUE, Tail(es))
Say(es) == LET f == Feed(mon, es) IN ok' = (ok /\ f[1]) /\ mon' = f[2]

NewHandle == [performed |-> FALSE, completed |-> FALSE, cancelled |-> FALSE, response |-> FALSE, cb |-> FALSE,
              code |-> 0, loc |-> FALSE, last |-> FALSE, ended |-> FALSE, added |-> FALSE]
RECURSIVE Enq(_, _)
Enq(i, a) == IF i > N THEN <<>> ELSE <<[e |-> "enqueue", id |-> i, method |-> "GET", plan |-> PlanOf(a[i])]>> \o Enq(i + 1, a)
Init == /\ ans \in [Ids -> {a \in Answers : Legal(a)}]
        /\ items = [i \in Ids |-> Items(ans[i])]
        /\ h = [i \in Ids |-> NewHandle]
        /\ pc = "enqueue" /\ nxt = 1 /\ cbk = <<>> /\ times = 0
        /\ mon = Feed(New, Enq(1, ans))[2] /\ ok = Feed(New, Enq(1, ans))[1]

Ev0(n, i) == [e |-> n, id |-> i]
\* Cancel, run by another thread, or inside a callback.
CancelBy(i, where) ==
  LET q == h[i] IN
  IF q.cancelled \/ q.completed \/ (~q.cb /\ ~CancelEarly)
  THEN Say(<<[e |-> "cancel", id |-> i, where |-> where], Ev0("cancelled", i)>>) /\ UNCHANGED h
  ELSE /\ h' = [h EXCEPT ![i].cancelled = TRUE]
       /\ Say(<<[e |-> "cancel", id |-> i, where |-> where]>> \o
              (IF ~q.cb THEN <<>> ELSE <<[e |-> IF q.response THEN "berr" ELSE "err", id |-> i, st |-> "CANCELLED"]>>) \o
              <<Ev0("cancelled", i)>>)
Thread(i) == /\ times < 2 /\ times' = times + 1 /\ cbk = <<>>
             /\ CancelBy(i, IF pc = "enqueue" \/ pc = "out" THEN "idle" ELSE "thread")
             /\ UNCHANGED <<ans, items, pc, nxt, cbk>>

Perform == /\ pc = "enqueue" /\ pc' = "adding" /\ Say(<<[e |-> "perform", ids |-> [i \in Ids |-> i]]>>)
           /\ UNCHANGED <<ans, items, h, nxt, cbk, times>>
\* The outcome reported for a handle at the end of its transfer (nothing if it has ended already).
Outcome(q, i, good) ==
  IF q.cancelled \/ q.completed THEN <<>>
  ELSE IF good \/ ~ResultUsed
       THEN <<IF q.response THEN [e |-> "done", id |-> i, code |-> q.code] ELSE [e |-> "err", id |-> i, st |-> "INTERNAL"]>>
       ELSE <<[e |-> IF q.response THEN "berr" ELSE "err", id |-> i, st |-> "UNAVAILABLE"]>>
RECURSIVE GiveUp(_)
GiveUp(k) == IF k = 0 THEN <<>> ELSE GiveUp(k - 1) \o Outcome(h[k], k, FALSE)
Add == /\ pc = "adding" /\ nxt <= N /\ nxt' = nxt + 1
       /\ IF h[nxt].cancelled
          THEN /\ pc' = "out"
               /\ Say(<<[e |-> "err", id |-> nxt, st |-> "CANCELLED"]>> \o (IF Detach THEN GiveUp(nxt - 1) ELSE <<>>) \o <<[e |-> "performed", st |-> "CANCELLED"]>>)
               /\ h' = IF Detach THEN [i \in Ids |-> IF i < nxt THEN [h[i] EXCEPT !.completed = TRUE] ELSE h[i]] ELSE h
          ELSE IF ~ans[nxt].supported
          THEN /\ h' = [h EXCEPT ![nxt].performed = TRUE, ![nxt].cb = TRUE, ![nxt].completed = TRUE, ![nxt].ended = TRUE]
               /\ Say(<<[e |-> "err", id |-> nxt, st |-> "INTERNAL"]>>) /\ UNCHANGED pc
          ELSE h' = [h EXCEPT ![nxt].performed = TRUE, ![nxt].cb = TRUE, ![nxt].added = TRUE] /\ UNCHANGED <<pc, mon, ok>>
       /\ UNCHANGED <<ans, items, cbk, times>>
Added == pc = "adding" /\ nxt > N /\ pc' = "loop" /\ UNCHANGED <<ans, items, h, nxt, cbk, times, mon, ok>>

\* A callback of request i starts; then it may cancel, and may refuse.
Start(i, q, rest) == /\ h' = [h EXCEPT ![i] = [q EXCEPT !.response = TRUE]] /\ cbk' = <<i, "start">> /\ items' = [items EXCEPT ![i] = rest]
                     /\ UNCHANGED <<mon, ok>>
Next1(i) == Tail(items[i])
Hand(i) ==
  /\ pc = "loop" /\ cbk = <<>> /\ h[i].added /\ ~h[i].ended /\ items[i] # <<>>
  /\ LET it == Head(items[i])  q == h[i] IN
     CASE q.cancelled /\ it.k # "end" /\ q.cancelled ->
            \* the library asks now and then whether to go on
            \/ items' = [items EXCEPT ![i] = <<[k |-> "end", fine |-> FALSE]>>] /\ UNCHANGED <<h, cbk, mon, ok>>
            \/ /\ it.k = "body" /\ q.response /\ cbk' = <<i, "body">> /\ items' = [items EXCEPT ![i] = Next1(i)] /\ UNCHANGED <<h, mon, ok>>
       [] it.k = "block" ->
            LET final == it.code >= 200 /\ it.code # 301 /\ ~(it.code \in 300..399 /\ it.loc)
                starts == IF FinalOnly THEN final /\ ~q.response ELSE it.code # 301
                q1 == [q EXCEPT !.code = it.code, !.loc = it.loc] IN
            IF starts THEN Start(i, q1, Next1(i))
            ELSE h' = [h EXCEPT ![i] = q1] /\ items' = [items EXCEPT ![i] = Next1(i)] /\ UNCHANGED <<cbk, mon, ok>>
       [] it.k = "trailer" ->
            IF FinalOnly THEN items' = [items EXCEPT ![i] = Next1(i)] /\ UNCHANGED <<h, cbk, mon, ok>> ELSE Start(i, q, Next1(i))
       [] it.k = "body" ->
            IF ~q.response THEN (IF LazyStart THEN Start(i, q, items[i]) ELSE ok' = FALSE /\ UNCHANGED <<h, cbk, items, mon>>)
            ELSE cbk' = <<i, "body">> /\ items' = [items EXCEPT ![i] = Next1(i)] /\ UNCHANGED <<h, mon, ok>>
       [] it.k = "end" ->
            IF it.fine /\ ~q.response /\ LazyStart /\ ~q.cancelled THEN Start(i, q, items[i])
            ELSE /\ Say(Outcome(q, i, it.fine)) /\ h' = [h EXCEPT ![i].completed = TRUE, ![i].ended = TRUE] /\ UNCHANGED <<cbk, items>>
  /\ UNCHANGED <<ans, pc, nxt, times>>
\* The callback: what is reported, a cancellation inside it or from another thread meanwhile, and its answer.
Callback(refuse, cancel) ==
  /\ cbk # <<>>
  /\ ~(refuse /\ cancel)
  /\ LET i == cbk[1]  q == h[i]
         e == IF cbk[2] = "start" THEN [e |-> "start", id |-> i, code |-> q.code, hdrs |-> <<q.code>>, refuse |-> refuse]
              ELSE [e |-> "body", id |-> i, n |-> 1, match |-> TRUE, refuse |-> refuse]
         can == cancel /\ ~q.cancelled /\ ~q.completed IN
     /\ Say(<<e>> \o (IF cancel THEN <<[e |-> "cancel", id |-> i, where |-> "callback"]>> \o
                                     (IF can THEN <<[e |-> "berr", id |-> i, st |-> "CANCELLED"]>> ELSE <<>>) \o <<Ev0("cancelled", i)>>
                                ELSE <<>>) \o
              (IF refuse /\ ~StopOnRefusal THEN <<[e |-> IF cbk[2] = "start" THEN "err" ELSE "berr", id |-> i, st |-> "INTERNAL"]>> ELSE <<>>))
     /\ h' = [h EXCEPT ![i].cancelled = @ \/ can, ![i].completed = @ \/ (refuse /\ StopOnRefusal)]
     /\ items' = IF refuse /\ StopOnRefusal /\ Head(items[i]).k # "end" THEN [items EXCEPT ![i] = <<[k |-> "end", fine |-> FALSE]>>] ELSE items
     /\ cbk' = <<>>
  /\ UNCHANGED <<ans, pc, nxt, times>>
\* Another thread cancels between the assignment of the response and the callback.
ThreadInside(i) == /\ cbk # <<>> /\ times < 2 /\ times' = times + 1 /\ CancelBy(i, "thread") /\ UNCHANGED <<ans, items, pc, nxt, cbk>>
Finish == /\ pc = "loop" /\ cbk = <<>> /\ \A i \in Ids : h[i].ended
          /\ pc' = "out" /\ Say(<<[e |-> "performed", st |-> "OK"]>>) /\ UNCHANGED <<ans, items, h, nxt, cbk, times>>
Next == \/ Perform \/ Add \/ Added \/ Finish
        \/ \E i \in Ids : Hand(i) \/ Thread(i) \/ ThreadInside(i)
        \/ \E r, c \in BOOLEAN : Callback(r, c)
        \/ pc = "out" /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
Good == ok
=============================================================================
