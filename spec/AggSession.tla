----------------------------- MODULE AggSession -----------------------------
(* Aggregation sessions as their callers and the aggregation protocol behind  *)
(* them see it: calls, returns, and the steps taken on the protocol meanwhile.*)
(* A refusal needs a reason that existed at some time during the call.        *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

Drop(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]
Put(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
Set(q) == {q[i] : i \in 1..Len(q)}
Empty == <<>>

\* ses: sessions; own: client token -> <<session, client>>; res: upload -> the same;
\* up: upload -> contents offered so far; upok: uploads known to be stored;
\* touched: client tokens with a refused submission; pend: thread -> call.
New == [ses |-> Empty, own |-> Empty, res |-> Empty, up |-> Empty, upok |-> {},
        touched |-> {}, pend |-> Empty]

Counts(x) ==
  [completed |-> Cardinality({c \in DOMAIN x.cl : x.cl[c].st \in {"done", "left"}}),
   failed |-> Cardinality({c \in DOMAIN x.cl : x.cl[c].st \in {"bad", "gone"}}),
   pending |-> Cardinality({c \in DOMAIN x.cl : x.cl[c].st = "pending"}),
   aborted |-> Cardinality({c \in DOMAIN x.cl : x.cl[c].st = "aborted"}),
   included |-> Cardinality(x.incl),
   waiting |-> 0,
   discarded |-> Cardinality({c \in DOMAIN x.cl : x.cl[c].st = "bad"})]

Known(s, id) == id \in DOMAIN s.ses
Open(s, id) == Known(s, id) /\ s.ses[id].st = "open" /\ s.ses[id].enders = {}

\* Remembers, for every call looking at session id, the counts it may report.
Seen(s, id) == [s EXCEPT !.pend = [t \in DOMAIN @ |->
                  IF @[t].id = id THEN [@[t] EXCEPT !.cands = @ \cup {Counts(s.ses[id])}] ELSE @[t]]]

Call(e) == [op |-> e.op, id |-> e.id, key |-> e.key, res |-> e.res, n |-> e.n,
            bad |-> FALSE, got |-> "", cands |-> {}, incl |-> 0, data |-> e.data]

\* ---- calls ---------------------------------------------------------------
Owner(s, ct) == IF ct \in DOMAIN s.own THEN s.own[ct] ELSE <<"", -1>>
ClientState(s, o) == IF o[1] = "" THEN "none" ELSE s.ses[o[1]].cl[o[2]].st

\* Calls that work on the same client (by its token) or upload disturb one another.
Rivals(s, c) ==
  {t \in DOMAIN s.pend :
     LET d == s.pend[t] IN
     \/ c.op \in {"submit", "drop"} /\ d.op \in {"submit", "drop"} /\ d.key = c.key
     \/ c.op = "start" /\ d.op = "start" /\ d.key = c.key
     \/ c.op = "up" /\ d.op = "up" /\ d.res = c.res
     \/ c.op = "up" /\ d.op \in {"submit", "drop"} /\ c.res \in DOMAIN s.res
          /\ s.res[c.res] = Owner(s, d.key)
     \/ d.op = "up" /\ c.op \in {"submit", "drop"} /\ d.res \in DOMAIN s.res
          /\ s.res[d.res] = Owner(s, c.key)
     \/ c.op \in {"complete", "abort"} /\ d.id = c.id}

BadAtCall(s, c) ==
  CASE c.op = "create" -> c.key = "invalid"
    [] c.op = "up" ->
         \/ c.res \notin DOMAIN s.res
         \/ c.res \in DOMAIN s.up                       \* someone uploaded already
         \/ LET o == s.res[c.res] IN
              ClientState(s, o) # "pending" \/ ~Open(s, o[1])
                \/ \E ct \in s.touched : Owner(s, ct) = o
    [] OTHER ->
         \/ ~Open(s, c.id)
         \/ c.op = "start" /\ (\/ c.key \notin DOMAIN s.ses[c.id].toks
                               \/ s.ses[c.id].toks[c.key] # "free"
                               \/ s.ses[c.id].lost)
         \/ c.op \in {"submit", "drop"} /\
              (\/ Owner(s, c.key)[1] # c.id
               \/ ClientState(s, Owner(s, c.key)) # "pending"
               \/ c.key \in s.touched)
         \/ c.op = "submit" /\ (\/ c.res \notin DOMAIN s.res
                                \/ s.res[c.res] # Owner(s, c.key)
                                \/ c.res \notin s.upok)

\* The client of this upload has finished with it, or its session is over.
Over(s, r) == /\ r \in DOMAIN s.res
              /\
                (\/ ClientState(s, s.res[r]) \in {"done", "bad", "left", "gone"}
                 \/ s.ses[s.res[r][1]].st = "ended")
              \* A call still working on the upload keeps it.
              /\ \A t \in DOMAIN s.pend : s.pend[t].op \in {"submit", "drop"} =>
                    Owner(s, s.pend[t].key) # s.res[r]

OnCall(s, e) ==
  LET c0 == Call(e)
      rivals == Rivals(s, c0)
      c == [c0 EXCEPT !.bad = BadAtCall(s, c0) \/ rivals # {},
                      !.key = IF c0.op = "up" /\ Over(s, c0.res) THEN "over" ELSE @,
                      !.cands = IF Known(s, c0.id) THEN {Counts(s.ses[c0.id])} ELSE {},
                      !.incl = IF Known(s, c0.id) THEN Cardinality(s.ses[c0.id].incl) ELSE 0]
      s1 == [s EXCEPT !.pend = [t \in DOMAIN s.pend \cup {e.t} |->
               IF t = e.t THEN c
               ELSE IF t \in rivals THEN [s.pend[t] EXCEPT !.bad = TRUE] ELSE s.pend[t]]]
      s2 == IF c.op = "up" THEN [s1 EXCEPT !.up = Put(@, c.res,
               {c.data} \cup (IF c.res \in DOMAIN s.up THEN s.up[c.res] ELSE {}))] ELSE s1
      \* An upload of a client whose session ends has a reason as well.
      s3 == IF c.op \in {"complete", "abort"} /\ Known(s, c.id)
              THEN LET x == [s2 EXCEPT !.ses[c.id].enders = @ \cup {e.t}]
                   IN [x EXCEPT !.pend = [t \in DOMAIN @ |->
                        IF @[t].op = "up" /\ @[t].res \in DOMAIN s.res /\ s.res[@[t].res][1] = c.id
                          THEN [@[t] EXCEPT !.bad = TRUE] ELSE @[t]]]
              ELSE s2
  IN IF e.t \in DOMAIN s.pend THEN {} ELSE {s3}

\* ---- steps on the protocol -------------------------------------------------
SessionOf(s, p) == {id \in DOMAIN s.ses : s.ses[id].p = p}

Ended(x) == x.done # ""
Stop(cl) == [c \in DOMAIN cl |-> IF cl[c].st = "pending" THEN [cl[c] EXCEPT !.st = "aborted"] ELSE cl[c]]

OnProtocol(s, e) ==
  IF e.k = "start"
    THEN IF e.t \in DOMAIN s.pend /\ s.pend[e.t].op = "create" /\ s.pend[e.t].got = ""
           THEN {[s EXCEPT !.pend[e.t].got = e.p]} ELSE {}
  ELSE IF e.t \notin DOMAIN s.pend \/ SessionOf(s, e.p) # {s.pend[e.t].id} THEN {}
  ELSE
    LET c == s.pend[e.t]
        id == c.id
        x == s.ses[id]
    IN CASE e.k = "add" ->
              IF /\ c.op = "start" /\ c.got = ""
                 /\ c.key \in DOMAIN x.toks /\ x.toks[c.key] = "free"
                 /\ ~Ended(x) /\ e.c \notin DOMAIN x.cl
                THEN {Seen([s EXCEPT !.ses[id].toks[c.key] = "used",
                                     !.ses[id].cl = Put(@, e.c, [st |-> "pending"]),
                                     !.pend[e.t].got = "added", !.pend[e.t].n = e.c], id)}
                ELSE {}
         [] e.k = "receive" ->
              IF /\ c.op = "submit" /\ c.got = ""
                 /\ Owner(s, c.key) = <<id, e.c>>
                 /\ x.cl[e.c].st = "pending"
                 /\ c.res \in DOMAIN s.res /\ s.res[c.res] = <<id, e.c>>
                 /\ c.res \in DOMAIN s.up /\ e.data \in s.up[c.res]
                 /\ ~Ended(x)
                THEN LET y == CASE e.r = "ok" -> [x EXCEPT !.cl[e.c].st = "done", !.incl = @ \cup {e.data}]
                                [] e.r = "bad" -> [x EXCEPT !.cl[e.c].st = "bad"]
                                [] e.r = "fatal" -> [x EXCEPT !.cl = Stop(@), !.lost = TRUE, !.done = "lost"]
                         s1 == Seen([s EXCEPT !.ses[id] = y, !.pend[e.t].got = e.r], id)
                     \* A protocol that failed is a reason for everyone.
                     IN {IF e.r = "fatal"
                           THEN [s1 EXCEPT !.pend = [t \in DOMAIN @ |->
                                  IF @[t].id = id \/ (@[t].op = "up" /\ @[t].res \in DOMAIN s.res
                                                        /\ s.res[@[t].res][1] = id)
                                    THEN [@[t] EXCEPT !.bad = TRUE] ELSE @[t]]]
                           ELSE s1}
                ELSE {}
         [] e.k = "close" ->
              IF /\ c.op \in {"drop", "submit"} /\ c.got = ""
                 /\ Owner(s, c.key) = <<id, e.c>>
                 /\ x.cl[e.c].st = "pending"
                 \* A submission closes its client only when nothing was uploaded.
                 /\ (c.op = "submit" => c.bad /\ e.code # 0)
                 /\ (c.op = "drop" => (e.code = 0) = (c.n = 0))
                THEN {Seen([s EXCEPT !.ses[id].cl[e.c].st = IF e.code = 0 THEN "left" ELSE "gone",
                                     !.pend[e.t].got = "closed"], id)}
                ELSE {}
         [] e.k = "complete" ->
              IF c.op = "complete" /\ ~Ended(x) /\ x.st = "open" /\ Cardinality(x.incl) >= x.min
                THEN {Seen([s EXCEPT !.ses[id].done = "complete", !.ses[id].cl = Stop(@),
                                     !.pend[e.t].got = "complete"], id)}
                ELSE {}
         [] e.k = "abort" ->
              IF /\ ~Ended(x) /\ x.st = "open"
                 /\ c.op = "abort" \/ (c.op = "complete" /\ c.incl < x.min)
                THEN {Seen([s EXCEPT !.ses[id].done = "abort", !.ses[id].cl = Stop(@),
                                     !.pend[e.t].got = "abort"], id)}
                ELSE {}

\* ---- returns ---------------------------------------------------------------
Refused(e) == e.r # "ok"
Counted(c, e) == e.counts \in c.cands
End(s, id, t) == [s EXCEPT !.ses[id].st = "ended", !.ses[id].enders = @ \ {t}]
Unend(s, id, t) == IF Known(s, id) THEN [s EXCEPT !.ses[id].enders = @ \ {t}] ELSE s

OnReturn(s, e) ==
  IF e.t \notin DOMAIN s.pend THEN {}
  ELSE
  LET c == s.pend[e.t]
      id == c.id
      s1 == [s EXCEPT !.pend = Drop(@, e.t)]
  IN
  CASE e.r = "failed" -> {}                       \* an error nobody documents
    [] c.op = "create" ->
         IF Refused(e) THEN (IF c.bad THEN {s1} ELSE {})
         ELSE IF ~c.bad /\ c.got # "" /\ ~Known(s, e.id)
           THEN {[s1 EXCEPT !.ses = Put(@, e.id,
                   [min |-> c.n, p |-> c.got, st |-> "open", enders |-> {}, done |-> "", lost |-> FALSE,
                    toks |-> Empty, cl |-> Empty, incl |-> {}])]}
           ELSE {}
    [] c.op = "preauth" ->
         IF Refused(e) THEN (IF c.bad THEN {s1} ELSE {})
         ELSE IF /\ Known(s, id)
                 /\ Len(e.toks) = c.n
                 /\ Cardinality(Set(e.toks)) = c.n
                 /\ \A i \in DOMAIN s.ses : Set(e.toks) \cap DOMAIN s.ses[i].toks = {}
           THEN {[s1 EXCEPT !.ses[id].toks = [k \in DOMAIN @ \cup Set(e.toks) |->
                                               IF k \in DOMAIN @ THEN @[k] ELSE "free"]]}
           ELSE {}
    [] c.op = "start" ->
         IF Refused(e) THEN (IF c.bad THEN {s1} ELSE {})
         ELSE IF c.got = "added" /\ e.ct \notin DOMAIN s.own /\ e.res \notin DOMAIN s.res
           THEN {[s1 EXCEPT !.own = Put(@, e.ct, <<id, c.n>>), !.res = Put(@, e.res, <<id, c.n>>)]}
           ELSE {}
    [] c.op = "up" ->
         IF Refused(e) THEN (IF c.bad THEN {[s1 EXCEPT !.up[c.res] =
                                IF Cardinality(@) = 1 THEN @ ELSE @ \ {c.data}]} ELSE {})
         ELSE IF /\ c.res \in DOMAIN s.res
                 /\ c.res \notin s.upok
                 \* Not into an upload whose client or session was over when the call began.
                 /\ c.key # "over"
           THEN {[s1 EXCEPT !.upok = @ \cup {c.res}]} ELSE {}
    [] c.op = "submit" ->
         IF Refused(e) THEN (IF c.got \in {"bad", "fatal"} \/ (c.bad /\ c.got # "ok")
                               THEN {[s1 EXCEPT !.touched = @ \cup {c.key}]} ELSE {})
         ELSE IF c.got = "ok" THEN {s1} ELSE {}
    [] c.op = "drop" ->
         IF Refused(e) THEN (IF c.bad /\ c.got = "" THEN {s1} ELSE {})
         ELSE IF c.got = "closed" \/ (c.bad /\ Owner(s, c.key)[1] = id) THEN {s1} ELSE {}
    [] c.op = "status" ->
         IF Refused(e) THEN (IF c.bad THEN {s1} ELSE {})
         ELSE IF Known(s, id) /\ Counted(c, e) /\ (e.st = "PENDING" \/ (c.bad /\ e.st # ""))
           THEN {s1} ELSE {}
    [] c.op = "wait" ->
         IF Refused(e) THEN (IF c.bad THEN {s1} ELSE {})
         ELSE IF /\ Known(s, id) /\ Counted(c, e)
                 /\ \/ e.st = "PENDING" /\ (c.n < 0 \/ e.counts.included >= c.n)
                    \/ e.st # "PENDING" /\ (s.ses[id].st = "ended" \/ s.ses[id].enders # {})
           THEN {s1} ELSE {}
    [] c.op = "complete" ->
         IF Refused(e) THEN (IF c.bad /\ c.got = "" THEN {Unend(s1, id, e.t)} ELSE {})
         ELSE IF /\ Known(s, id) /\ s.ses[id].st = "open" /\ Counted(c, e)
                 /\ IF e.has
                      THEN /\ c.got = "complete" /\ e.st = "COMPLETED"
                           /\ Set(e.items) = s.ses[id].incl
                           /\ Len(e.items) = Cardinality(s.ses[id].incl)
                      ELSE /\ c.got # "complete" /\ e.st = "FAILED"
                           /\ (c.incl < s.ses[id].min \/ s.ses[id].lost)
                           /\ s.ses[id].done # ""
           THEN {End(s1, id, e.t)} ELSE {}
    [] c.op = "abort" ->
         IF Refused(e) THEN (IF c.bad /\ c.got = "" THEN {Unend(s1, id, e.t)} ELSE {})
         ELSE IF /\ Known(s, id) /\ s.ses[id].st = "open" /\ Counted(c, e)
                 /\ e.st = "ABORTED" /\ s.ses[id].done \in {"abort", "lost"}
           THEN {End(s1, id, e.t)} ELSE {}

\* Nothing is going on: whoever still waits has a reason to.
Quiet(s) == \A t \in DOMAIN s.pend :
              LET c == s.pend[t] IN
              /\ c.op = "wait" /\ Known(s, c.id)
              /\ s.ses[c.id].st = "open" /\ c.n > Cardinality(s.ses[c.id].incl)

Steps(s, e) ==
  CASE e.e = "call" -> OnCall(s, e)
    [] e.e = "p" -> OnProtocol(s, e)
    [] e.e = "ret" -> OnReturn(s, e)
    [] e.e = "quiet" -> IF Quiet(s) THEN {s} ELSE {}
    [] e.e = "looperr" -> {}                      \* a waiter was told twice
    [] e.e = "end" -> {s}
=============================================================================
