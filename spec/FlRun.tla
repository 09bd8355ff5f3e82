------------------------------- MODULE FlRun -------------------------------
(* One run of the client: what it asks the server for, what it computes, what *)
(* it reports, and what it tells its caller.  A run is described by events on *)
(* the interfaces of the runner (server, device, model, history), and Step    *)
(* gives the state after an event, or Wrong when the event is out of place.   *)
EXTENDS RunBase

\* ---- what is said along with a query --------------------------------------------
Earlier(s) == Sel(s.hist, LAMBDA h : h.task = s.q[1].n /\ h.started /\ ~h.aborted)
Since(s) == IF Earlier(s) = <<>> \/ s.dbbad THEN 99999 ELSE Last(Earlier(s)).at
Id(t, f) == IF f.lwid THEN (IF t.kind = "eq" THEN "criteria" ELSE "")
            ELSE IF f.cid THEN "plan" ELSE ""
Agg(t, f) == IF f.conf /\ t.conf THEN "conf"
             ELSE IF t.kind = "eq" \/ t.out THEN "simple" ELSE "secure"
Pairs(a) == {<<a[i].u, a[i].at>> : i \in DOMAIN a}
Context(s, e) ==
  LET t == s.q[1] IN
  /\ e.session = s.session /\ e.pop = s.pop /\ e.task = t.n /\ e.id = Id(t, s.f)
  /\ e.result = (t.kind = "eq")
  /\ e.agg = Agg(t, s.f)
  /\ e.agg = "secure" => e.min = IF t.secagg > 0 THEN t.secagg ELSE 0
  /\ IF Since(s) = 99999 THEN e.last < 0 /\ e.acc = <<>>
     ELSE e.last = Since(s) /\ Pairs(e.acc) = Pairs(Last(Earlier(s)).acc)
  /\ \E i \in DOMAIN t.queries : t.queries[i].u = e.u

\* ---- the run ----------------------------------------------------------------------
\* at: where the run is.  q: tasks still to be worked on, the first is being
\* worked on; temps of the next task that needs one are settled as they come.
Wrong == [at |-> "wrong"]
Begin(e) ==
  [at |-> "start", f |-> e, session |-> e.session, pop |-> e.pop, hist |-> e.hist,
   eet |-> "", spec |-> [has |-> FALSE, tasks |-> <<>>, pols |-> <<>>], bad |-> FALSE,
   pend |-> <<>>, q |-> <<>>, single |-> FALSE,
   model |-> FALSE, ran |-> "", dbbad |-> FALSE, nofile |-> FALSE, stored |-> "", sent |-> "",
   asked |-> 0, gave |-> <<>>, w |-> 0]
Fresh(s) == [s EXCEPT !.model = FALSE, !.ran = "", !.dbbad = FALSE, !.nofile = FALSE, !.stored = "", !.sent = ""]

\* The eligibility of the tasks is known and nothing went wrong.
EetFailed(s) == s.eet = "task" /\ s.bad
Decided(s) == s.at = "eet" /\ s.eet \in {"task", "disabled"} /\ ~s.bad
\* Tasks that came without a file that a task needs do not wait for anything.
RECURSIVE Usable(_, _)
Usable(p, q) == IF p # <<>> /\ ~NeedsIn(p[1]) THEN Usable(Tail(p), Append(q, p[1])) ELSE [pend |-> p, q |-> q]
Settle(s) == LET u == Usable(s.pend, s.q) IN [s EXCEPT !.pend = u.pend, !.q = u.q]

ManyLeft(s) == s.at \in {"many"} /\ (s.q # <<>> \/ s.pend # <<>>)
MayAskOne(s) == /\ AskOne(s)
                /\ \/ Decided(s) /\ AskMany(s) = <<>>
                   \/ s.at = "many" /\ s.q = <<>> /\ s.pend = <<>>
\* All that had to be done was done.
Ended(s) == \/ s.at = "stopped"
            \/ s.at = "many" /\ ~ManyLeft(s) /\ ~AskOne(s)
            \/ s.at = "one" /\ s.q = <<>> /\ s.pend = <<>>
            \/ Decided(s) /\ AskMany(s) = <<>> /\ ~AskOne(s)
            \/ s.at = "eet" /\ s.eet \notin {"task", "disabled"}

Conds(s, e) ==
  IF s.at = "start" THEN [s EXCEPT !.at = IF e.ok THEN "ready" ELSE "stopped"]
  ELSE IF s.at = "stopped" THEN Wrong ELSE s

Eet(s, e) ==
  IF s.at # "ready" THEN Wrong
  ELSE [s EXCEPT !.at = "eet", !.eet = e.r, !.spec = e.spec, !.bad = e.r = "task" /\ ~e.parses, !.w = e.w]

EetErr(s, e) ==
  IF s.at = "eet" /\ EetFailed(s) /\ e.c # "OK" THEN [s EXCEPT !.at = "stopped", !.w = e.w] ELSE Wrong

DbRead(s, e) ==
  IF s.at = "eet" THEN [s EXCEPT !.bad = @ \/ (s.eet = "task" /\ ~e.ok)]
  ELSE [s EXCEPT !.dbbad = @ \/ ~e.ok]

Temp(s, e) ==
  CASE s.at = "eet" -> [s EXCEPT !.bad = @ \/ e.r # "OK"]
    [] s.at \in {"many", "one"} /\ e.f = "init" ->
         IF s.pend = <<>> THEN Wrong
         ELSE Settle([s EXCEPT !.pend = Tail(@), !.q = IF e.r = "OK" THEN Append(@, s.pend[1]) ELSE @])
    [] s.at \in {"many", "one"} /\ e.f # "init" ->
         IF s.q = <<>> THEN Wrong ELSE [s EXCEPT !.nofile = @ \/ e.r # "OK"]
    [] OTHER -> Wrong

Multi(s, e) ==
  IF ~(Decided(s) /\ AskMany(s) # <<>> /\ e.names = AskMany(s)) THEN Wrong
  ELSE Settle(Fresh([s EXCEPT !.at = "many", !.w = e.w, !.asked = Len(AskMany(s)),
                       !.pend = IF e.r = "OK" THEN Sel(e.tasks, Workable) ELSE <<>>]))

Checkin(s, e) ==
  IF ~(MayAskOne(s) /\ e.has = Weighed(s) /\ (e.has => Told(s, e.info))) THEN Wrong
  ELSE Settle(Fresh([s EXCEPT !.at = "one", !.w = e.w, !.asked = @ + 1, !.single = TRUE,
                       !.pend = IF e.r = "OK" /\ Workable(e.task) THEN <<e.task>> ELSE <<>>]))

Look(s, e) ==
  CASE s.at = "eet" ->
         IF Decided(s) /\ e.kind = "elig" /\ e.session = s.session /\ e.pop = s.pop
            /\ e.id = (IF s.f.lwid THEN "criteria" ELSE "") THEN s ELSE Wrong
    [] s.at \in {"many", "one"} ->
         IF s.q # <<>> /\ s.sent = "" /\ e.kind = "fed" /\ Context(s, e) THEN s ELSE Wrong
    [] OTHER -> Wrong

Modelled(s, e) ==
  CASE s.at = "eet" -> IF Decided(s) /\ e.m = "eet" /\ e.input THEN s ELSE Wrong
    [] s.at \in {"many", "one"} ->
         IF /\ s.q # <<>> /\ s.sent = "" /\ ~s.model
            /\ e.m = s.q[1].n /\ Runs(s.q[1], s.f)
            /\ e.input /\ e.output /\ e.names
           THEN [s EXCEPT !.model = TRUE] ELSE Wrong
    [] OTHER -> Wrong
Ran(s, e) ==
  IF s.model /\ s.ran = "" /\ \A i \in DOMAIN e.reads : e.reads[i].inorder THEN [s EXCEPT !.ran = e.r] ELSE Wrong

Commit(s, e) == IF s.at \in {"many", "one"} /\ s.q # <<>> THEN [s EXCEPT !.stored = IF e.ok THEN "yes" ELSE "no"] ELSE s

Whole(s) == Good(s.q[1], s.f, s.ran) /\ ~s.nofile
Sent(s, e) ==
  IF ~(s.at \in {"many", "one"} /\ s.q # <<>> /\ s.sent = "" /\ s.stored = "yes") THEN Wrong
  ELSE LET t == s.q[1] IN
       IF /\ IF s.single THEN ~e.named ELSE e.named /\ e.session = t.session
          /\ (Runs(t, s.f) /\ ~s.nofile) => s.ran # ""
          /\ e.ok = Whole(s)
          /\ e.ok => Result(t, s.f, e)
         THEN [s EXCEPT !.w = e.w, !.sent = IF e.r = "OK" THEN (IF e.ok THEN "result" ELSE "failure") ELSE "lost"]
         ELSE Wrong

Done(s, e) ==
  IF ~(s.at \in {"many", "one"} /\ s.q # <<>> /\ (s.sent # "" \/ s.stored = "no")) THEN Wrong
  ELSE LET t == s.q[1] IN
       IF e.ok = (s.sent = "result") /\ e.has = s.f.rec /\ (e.has => e.task = t.n)
         THEN Fresh([s EXCEPT !.q = Tail(@), !.gave = IF e.ok THEN Append(@, t.n) ELSE @])
         ELSE Wrong

Contribution(s) == IF s.gave = <<>> THEN "FAIL" ELSE IF Len(s.gave) = s.asked THEN "SUCCESS" ELSE "PARTIAL"
Outcome(s, e) ==
  IF e.r = "stopped" THEN (IF s.at = "start" THEN [s EXCEPT !.at = "over"] ELSE Wrong)
  ELSE IF Ended(s) /\ e.r = "OK" /\ e.contrib = Contribution(s) /\ e.names = s.gave
     /\ e.token = "w" \o ToString(s.w) /\ e.delay = s.w
    THEN [s EXCEPT !.at = "over"] ELSE Wrong

New == [at |-> "none"]
Step(s, e) ==
  IF s.at = "none" THEN (IF e.e = "start" THEN Begin(e) ELSE Wrong)
  ELSE CASE e.e = "conds" -> Conds(s, e)
         [] e.e = "eet" -> Eet(s, e)
         [] e.e = "eeterr" -> EetErr(s, e)
         [] e.e = "dbread" -> DbRead(s, e)
         [] e.e = "temp" -> Temp(s, e)
         [] e.e = "multi" -> Multi(s, e)
         [] e.e = "checkin" -> Checkin(s, e)
         [] e.e = "look" -> Look(s, e)
         [] e.e = "model" -> Modelled(s, e)
         [] e.e = "ran" -> Ran(s, e)
         [] e.e = "commit" -> Commit(s, e)
         [] e.e = "report" -> Sent(s, e)
         [] e.e = "done" -> Done(s, e)
         [] e.e = "result" -> Outcome(s, e)
         [] OTHER -> s
Steps(s, e) == LET n == Step(s, e) IN IF n.at = "wrong" THEN {} ELSE {n}
============================================================================
