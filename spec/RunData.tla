------------------------------ MODULE RunData ------------------------------
(* Which examples a computation gets, and the account that is kept of them:   *)
(* in the record of queries, in what is published, and in the stored history. *)
EXTENDS RunBase

Min(a, b) == IF a < b THEN a ELSE b
Code(n) == CASE n = 1 -> "CANCELLED" [] n = 3 -> "INVALID_ARGUMENT" [] n = 10 -> "ABORTED"
             [] n = 13 -> "INTERNAL" [] n = 14 -> "UNAVAILABLE" [] OTHER -> "OK"
History == "internal:/opstats"
SliceUri == "internal:/federated_select"
OnDevice(u) == u \notin {History, SliceUri}

RECURSIVE Sum(_, _)
Sum(q, i) == IF i > Len(q) THEN 0 ELSE q[i] + Sum(q, i + 1)
Named(s, n) == LET m == Sel(s.pool, LAMBDA t : t.n = n) IN m[Len(m)]
QueryOf(t, u) == LET m == Sel(t.queries, LAMBDA q : q.u = u) IN m[1]

\* ---- what there is to read ------------------------------------------------------
\* A reading of an example source on the device.
Reading(q, r) ==
  IF q.make # 0 THEN r.n = 0 /\ (r.want > 0 => r.end = Code(q.make))
  ELSE /\ r.n = Min(r.want, q.have)
       /\ r.vals = [i \in 1..r.n |-> i - 1]      \* every example once
       /\ r.inorder
       /\ r.end = IF r.want <= q.have THEN "OK" ELSE IF q.error # 0 THEN Code(q.error) ELSE "OUT_OF_RANGE"
Read(s, t, r) ==
  CASE r.u = SliceUri -> s.slices = "slices/" \o t.n /\ r.n = Min(r.want, 2) /\ r.vals = [i \in 1..r.n |-> i - 1] /\ r.inorder
    [] r.u = History -> s.slices # "x" /\ r.inorder /\ \A i \in DOMAIN r.vals : r.vals[i] = i - 1
    [] OTHER -> Reading(QueryOf(t, r.u), r) /\ r.u \in Range(s.looked)

\* ---- the account ------------------------------------------------------------------
Made(t, u) == QueryOf(t, u).make = 0
Account(s) ==
  LET t == s.t IN
  IF t.kind = "eq"
    THEN LET m == Sel(s.looked, LAMBDA u : Made(t, u)) IN
         [i \in DOMAIN m |-> [u |-> m[i], n |-> IF QueryOf(t, m[i]).error = 0 THEN 1 ELSE 0,
                              bytes |-> IF QueryOf(t, m[i]).error = 0 THEN QueryOf(t, m[i]).size ELSE 0]]
    ELSE LET m == Sel(s.reads, LAMBDA r : IF OnDevice(r.u) THEN Made(t, r.u) ELSE r.end \in {"OK", "OUT_OF_RANGE"}) IN
         [i \in DOMAIN m |-> [u |-> m[i].u, n |-> m[i].n, bytes |-> m[i].bytes]]
Counted(a) == Sel(a, LAMBDA x : x.u # SliceUri)
\* First uses of a source on the device are remembered.
First(u) == IF OnDevice(u) THEN "ok" ELSE "none"
Kept2(a) == {<<Counted(a)[i].u, Counted(a)[i].n, Counted(a)[i].bytes, First(Counted(a)[i].u)>> : i \in DOMAIN Counted(a)}
Stored(d) == {<<d[i].u, d[i].n, d[i].bytes, d[i].first>> : i \in DOMAIN d}
Examples(s) == IF s.t.kind = "eq" THEN Sum([i \in DOMAIN s.t.queries |-> s.t.queries[i].have], 1)
               ELSE LET a == Counted(Account(s)) IN Sum([i \in DOMAIN a |-> a[i].n], 1)
Bytes(s) == LET a == Counted(Account(s)) IN Sum([i \in DOMAIN a |-> a[i].bytes], 1)

\* ---- the run -------------------------------------------------------------------------
None == [n |-> "", kind |-> ""]
New == [at |-> "none"]
Wrong == [at |-> "wrong"]
Begin(e) == [at |-> "run", f |-> e, pool |-> <<>>, t |-> None, looked |-> <<>>, reads |-> <<>>, slices |-> "", acc |-> <<>>]
With(s, n) == IF s.t.n = n THEN s ELSE [s EXCEPT !.t = Named(s, n)]
Knows(s, n) == \E i \in DOMAIN s.pool : s.pool[i].n = n

\* The computation of a task is over: its account is closed.
Close(s) == IF s.t.n = "" THEN s
            ELSE [s EXCEPT !.acc = Append(@, [task |-> s.t.n, list |-> Counted(Account(s))]),
                           !.t = None, !.looked = <<>>, !.reads = <<>>, !.slices = ""]

Looked(s, e) ==
  IF e.kind # "fed" THEN (IF s.t.n = "" THEN s ELSE Wrong)
  ELSE IF ~Knows(s, e.task) \/ ~(s.t.n \in {"", e.task}) THEN Wrong
  ELSE LET x == With(s, e.task) IN
       IF OnDevice(e.u) /\ \E i \in DOMAIN x.t.queries : x.t.queries[i].u = e.u
         THEN [x EXCEPT !.looked = Append(@, e.u)] ELSE Wrong
Modelled(s, e) == IF e.m = "eet" THEN s
                  ELSE IF Knows(s, e.m) /\ s.t.n = "" THEN With(s, e.m) ELSE Wrong
\* Each source is looked up once for each reading.
Once(s, e) == LET dev == Sel(e.reads, LAMBDA r : OnDevice(r.u)) IN s.looked = [i \in DOMAIN dev |-> dev[i].u]
Ran(s, e) == IF s.t.n = e.m /\ (\A i \in DOMAIN e.reads : Read(s, s.t, e.reads[i])) /\ Once(s, e)
               THEN [s EXCEPT !.reads = e.reads] ELSE Wrong
Published(s, e) ==
  IF e.name # "PublishComputationCompleted" THEN s
  ELSE LET x == IF s.t.n = "" /\ Knows(s, e.id) THEN With(s, e.id) ELSE s IN
       IF x.t.n = e.id /\ e.examples = Examples(x) /\ e.bytes = Bytes(x) THEN x ELSE Wrong
Over(s, e) ==
  IF ~e.has THEN Close(s)
  ELSE LET want == IF s.t.n = "" THEN <<>> ELSE Account(s) IN
       IF /\ Len(want) = Len(e.queries)
          /\ \A i \in DOMAIN want : e.queries[i].u = want[i].u /\ e.queries[i].n = want[i].n
         THEN Close(s) ELSE Wrong
\* What the history says about the data used.
Of(s, n) == UNION {Kept2(s.acc[i].list) : i \in {j \in DOMAIN s.acc : s.acc[j].task = n}}
RECURSIVE All(_, _)
All(acc, i) == IF i > Len(acc) THEN <<>> ELSE acc[i].list \o All(acc, i + 1)
\* Uses of a source by several tasks add up.
Together(s) ==
  LET a == Sel(All(s.acc, 1), LAMBDA x : OnDevice(x.u))
      of(u) == Sel(a, LAMBDA x : x.u = u) IN
  {<<u, Sum([i \in DOMAIN of(u) |-> of(u)[i].n], 1), Sum([i \in DOMAIN of(u) |-> of(u)[i].bytes], 1), "ok">> :
     u \in {a[i].u : i \in DOMAIN a}}
History2(s, e) ==
  IF s.f.phases
    THEN /\ e.top.data = <<>>
         /\ \A i \in DOMAIN e.phases :
              Stored(e.phases[i].data) = IF e.phases[i].phase = "COMPUTATION" THEN Of(s, e.phases[i].task) ELSE {}
         /\ \A i \in DOMAIN s.acc : s.acc[i].list = <<>> \/ \E j \in DOMAIN e.phases : e.phases[j].task = s.acc[i].task
    ELSE {x \in Stored(e.top.data) : OnDevice(x[1])} = Together(s)

Step(s, e) ==
  IF s.at = "none" THEN (IF e.e = "start" THEN Begin(e) ELSE Wrong)
  ELSE CASE e.e = "multi" -> [s EXCEPT !.pool = e.tasks]
         [] e.e = "checkin" -> [s EXCEPT !.pool = Append(@, e.task)]
         [] e.e = "look" -> Looked(s, e)
         [] e.e = "slices" -> IF s.t.n # "" THEN [s EXCEPT !.slices = e.tmpl] ELSE Wrong
         [] e.e = "model" -> Modelled(s, e)
         [] e.e = "ran" -> Ran(s, e)
         [] e.e = "pub" -> Published(s, e)
         [] e.e = "done" -> Over(s, e)
         [] e.e = "stored" -> IF History2(s, e) THEN s ELSE Wrong
         [] e.e = "misuse" -> Wrong
         [] OTHER -> s
Steps(s, e) == LET n == Step(s, e) IN IF n.at = "wrong" THEN {} ELSE {n}
============================================================================
