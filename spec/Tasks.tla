------------------------------- MODULE Tasks -------------------------------
(* Publishing tasks and assigning clients to them.  Every operation takes     *)
(* effect at one instant between its call and its return; the monitor keeps   *)
(* all states that the calls and returns allow.                               *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

Drop(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]
Put(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
Set(q) == {q[i] : i \in 1..Len(q)}
Without(q, i) == SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q))

\* Tasks in the order of publication; elig is what the eligibility service was told.
Init0 == [one |-> <<>>, many |-> <<>>, elig |-> <<>>]

Ok(s, v) == [s |-> s, r |-> "ok", v |-> v]
No(s, r) == [s |-> s, r |-> r, v |-> <<>>]

RECURSIVE Named(_, _)
Named(q, names) == IF q = <<>> THEN <<>>
                   ELSE (IF Head(q).name \in names THEN <<Head(q).k>> ELSE <<>>) \o Named(Tail(q), names)

\* The possible effects of operation o: a set.
Do(s, o) ==
  CASE o.op = "add" ->
         IF o.mode = "one" THEN {Ok([s EXCEPT !.one = Append(@, [k |-> o.k, name |-> o.name])], <<>>)}
         ELSE IF o.mode = "many" THEN {Ok([s EXCEPT !.many = Append(@, [k |-> o.k, name |-> o.name])], <<>>)}
         ELSE {No(s, "error")}
    [] o.op = "rem" ->
         LET i == {x \in 1..Len(s.one) : s.one[x].k = o.k}
             j == {x \in 1..Len(s.many) : s.many[x].k = o.k}
         IN IF i \cup j = {} THEN {No(s, "error")}
            ELSE {Ok([s EXCEPT !.one = Without(@, x)], <<>>) : x \in i}
                   \cup {Ok([s EXCEPT !.many = Without(@, x)], <<>>) : x \in j}
    \* The oldest task for single assignment, if any.
    [] o.op = "checkin" ->
         IF o.mode # "right" THEN {No(s, "refused")}
         ELSE {Ok(s, IF s.one = <<>> THEN <<>> ELSE <<Head(s.one).k>>)}
    \* Every task for multiple assignment that the client named.
    [] o.op = "checkins" ->
         IF o.mode # "right" THEN {No(s, "refused")} ELSE {Ok(s, Named(s.many, Set(o.names)))}
    [] o.op = "eadd" -> {Ok([s EXCEPT !.elig = Append(@, <<o.name, o.mode>>)], <<>>)}
    [] o.op = "erem" ->
         LET i == {x \in 1..Len(s.elig) : s.elig[x][1] = o.name}
         IN IF i = {} THEN {No(s, "error")} ELSE {Ok([s EXCEPT !.elig = Without(@, x)], <<>>) : x \in i}
    \* What clients are told that can do several tasks at once.
    [] o.op = "list" ->
         IF o.mode # "right" THEN {No(s, "refused")}
         ELSE {Ok(s, IF o.name = "plain" THEN <<>> ELSE [i \in 1..Len(s.elig) |-> s.elig[i][1] \o "/" \o s.elig[i][2]])}
    [] o.op = "report" -> IF o.mode # "right" THEN {No(s, "refused")} ELSE {Ok(s, <<>>)}

RECURSIVE Closure(_)
Closure(ms) ==
  LET next == UNION {UNION {{[s |-> d.s, p |-> [m.p EXCEPT ![t] =
                                [o |-> @.o, done |-> TRUE, r |-> d.r, v |-> d.v]]] :
                               d \in Do(m.s, m.p[t].o)} :
                              t \in {u \in DOMAIN m.p : ~m.p[u].done}} :
                     m \in ms}
  IN IF next \subseteq ms THEN ms ELSE Closure(ms \cup next)

\* toks: tokens given to clients; task of each, "spent" once used.  dead: tasks
\* whose sessions have ended.
\* runs: computations the server was asked for; of: the computation of a session
\* (found out from what it serves, or unknown); open: requests under way; sent:
\* reports; acked: reports that the server said it took.
New == [ms |-> {[s |-> Init0, p |-> <<>>]}, toks |-> <<>>, dead |-> {},
        runs |-> <<>>, of |-> <<>>, open |-> <<>>, sent |-> {}, acked |-> {}]

Called(ms, t, o) ==
  Closure({[s |-> m.s, p |-> Put(m.p, t, [o |-> o, done |-> FALSE, r |-> "", v |-> <<>>])] : m \in ms})

\* The same answer: order does not matter, and a list may name equal tasks once.
Same(o, v, w) == Set(v) = Set(w) /\ (o.op = "list" \/ Len(v) = Len(w))

Returned(ms, t, r, v) ==
  {[s |-> m.s, p |-> Drop(m.p, t)] :
     m \in {x \in ms : /\ t \in DOMAIN x.p /\ x.p[t].done
                       /\ \/ x.p[t].r = r
                          \/ x.p[t].r = "refused" /\ r \in {"400", "401", "403", "404"}
                       /\ Same(x.p[t].o, x.p[t].v, v)}}

Steps(s, e) ==
  CASE e.e = "call" ->
         {[s EXCEPT !.ms = Called(s.ms, e.t, [op |-> e.op, k |-> e.k, name |-> e.name, mode |-> e.mode,
                                              names |-> e.names])]}
    [] e.e = "ret" ->
         LET ms == Returned(s.ms, e.t, e.r, e.v)
             fresh == /\ Set(e.toks) \cap DOMAIN s.toks = {}
                      /\ Cardinality(Set(e.toks)) = Len(e.toks)
                      /\ e.toks # <<>> => Len(e.toks) = Len(e.v)
         IN IF ms = {} \/ ~fresh THEN {}
            ELSE {[s EXCEPT !.ms = ms,
                            !.toks = [x \in DOMAIN @ \cup Set(e.toks) |->
                               IF x \in DOMAIN @ THEN @[x]
                               ELSE LET i == CHOOSE j \in 1..Len(e.toks) : e.toks[j] = x IN e.v[i]]]}
    \* The session of a task is ended (after the task was removed).
    [] e.e = "ended" -> {[s EXCEPT !.dead = @ \cup {e.k}]}
    \* A token is used with the session of task k.
    [] e.e = "use" ->
         LET good == e.tok \in DOMAIN s.toks /\ s.toks[e.tok] = e.k /\ e.k \notin s.dead
         IN IF good = e.ok
              THEN {[s EXCEPT !.toks = IF good THEN [@ EXCEPT ![e.tok] = "spent"] ELSE @]}
              ELSE {}
    [] e.e = "end" -> {s}
    \* ---- computations run by the server
    [] e.e = "run" ->
         {[s EXCEPT !.runs = Put(@, e.k, [name |-> e.name, mode |-> e.mode, n |-> e.n,
                                          done |-> FALSE])]}
    [] e.e = "cin" ->
         {[s EXCEPT !.open = Put(@, e.n, [names |-> Set(e.names), mode |-> e.mode,
                                          ks |-> {k \in DOMAIN s.runs : ~s.runs[k].done}])]}
    \* Assigned to computations that were going on meanwhile, of the kind asked for.
    [] e.e = "got" ->
         LET o == s.open[e.n]
             live == o.ks \cup {k \in DOMAIN s.runs : ~s.runs[k].done}
             may(a) == {k \in live : /\ s.runs[k].mode = o.mode /\ s.runs[k].name = a.name
                                     /\ a.s \in DOMAIN s.of => s.of[a.s] = k
                                     /\ a.s \notin DOMAIN s.of =>
                                          \A x \in DOMAIN s.of : s.of[x] # k}
         IN IF /\ e.r = "200" /\ (o.mode = "one" => Len(e.v) <= 1)
               /\ \A i \in 1..Len(e.v) : /\ e.v[i].sid /\ may(e.v[i]) # {}
                                         /\ o.mode = "many" => e.v[i].name \in o.names
                                         /\ \A j \in 1..(i - 1) : e.v[j].s # e.v[i].s
              THEN {[s EXCEPT !.open = Drop(@, e.n)]}
              ELSE {}
    \* What it serves is there as long as the computation goes on, and tells which one it is.
    [] e.e = "get" ->
         {[s EXCEPT !.open = Put(@, e.n, [s |-> e.s, what |-> e.what,
                                          ks |-> {k \in DOMAIN s.runs : ~s.runs[k].done}])]}
    [] e.e = "gave" ->
         LET o == s.open[e.n]
             now == {k \in DOMAIN s.runs : ~s.runs[k].done}
             t == [s EXCEPT !.open = Drop(@, e.n)]
         IN IF o.s \in DOMAIN s.of
              THEN LET k == s.of[o.s]
                   IN IF \/ e.r = "200" /\ e.data = k \o "/" \o o.what /\ k \in o.ks
                         \/ e.r = "404" /\ k \notin now
                        THEN {t} ELSE {}
              ELSE LET ks == {k \in o.ks : k \o "/" \o o.what = e.data /\ \A x \in DOMAIN s.of : s.of[x] # k}
                   IN IF e.r = "200" THEN {[t EXCEPT !.of = Put(@, o.s, k)] : k \in ks}
                      ELSE IF e.r = "404" /\ \E k \in DOMAIN s.runs : k \notin now THEN {t} ELSE {}
    \* A token is good for the session it was given for until that has ended.
    [] e.e = "started" ->
         IF \/ e.r = "200"
            \/ e.r \in {"400", "401", "403", "404"} /\ \E k \in DOMAIN s.runs :
                   (e.s \in DOMAIN s.of => s.of[e.s] = k) /\ s.runs[k].done
            \/ e.r \in {"400", "401", "403", "404"} /\ \E x \in s.sent : x.s = e.s
           THEN {s} ELSE {}
    [] e.e = "sub" ->
         {[s EXCEPT !.open = Put(@, e.n, [s |-> e.s, d |-> e.d]), !.sent = @ \cup {[s |-> e.s, d |-> e.d]}]}
    [] e.e = "subd" ->
         {[s EXCEPT !.open = Drop(@, e.n),
                    !.acked = IF e.r = "200" THEN @ \cup {s.open[e.n]} ELSE @]}
    \* The result of a computation: reports of its own clients, each once, all that were
    \* taken, and as many as were asked for.
    [] e.e = "done" ->
         LET r == s.runs[e.k]
             ok(x) == /\ \A d \in Set(e.v) : [s |-> x, d |-> d] \in s.sent
                      /\ \A a \in s.acked : a.s = x => a.d \in Set(e.v)
             free == {x.s : x \in s.sent} \ DOMAIN s.of
             mine == {x \in DOMAIN s.of : s.of[x] = e.k}
             t == [s EXCEPT !.runs[e.k].done = TRUE]
         IN IF e.r = e.k
              THEN IF /\ r.mode # "none" /\ Len(e.v) >= r.n /\ Cardinality(Set(e.v)) = Len(e.v)
                     THEN {[t EXCEPT !.of = Put(@, x, e.k)] : x \in {y \in (IF mine = {} THEN free ELSE mine) : ok(y)}}
                     ELSE {}
              ELSE IF e.r = "ValueError" /\ r.mode = "none" THEN {t} ELSE {}
    \* In the end nothing is published.
    [] e.e = "left" ->
         IF e.v = <<>> /\ \A k \in DOMAIN s.runs : s.runs[k].done THEN {s} ELSE {}
=============================================================================
