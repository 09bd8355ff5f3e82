----------------------------- MODULE TasksImpl -----------------------------
(* Task assignment as built: a list of tasks under one lock, sessions under   *)
(* another, the eligibility service's list under a third.  One thread         *)
(* publishes and retires tasks as the server does for a computation, clients  *)
(* check in meanwhile.  Calls and returns go to the monitor of Tasks.         *)
EXTENDS Tasks
CONSTANTS Clients, MaxTasks, MaxCheckins, Bug

VARIABLES one, many, elig,   \* what the services hold
          sess,              \* session -> its unused tokens
          tl,                \* who holds the task lock
          pc, job,           \* computations: where they are, what they are
          cp, cq, seen,      \* clients: where they are, what they ask, what they read
          ntok, left, mon, ok
vars == <<one, many, elig, sess, tl, pc, job, cp, cq, seen, ntok, left, mon, ok>>

Ks == 1..MaxTasks
K(i) == <<"k1", "k2", "k3">>[i]
T(i) == <<"t1", "t2", "t3", "t4", "t5", "t6", "t7", "t8">>[i]
Names == {"n1", "n2"}

Init == /\ one = <<>> /\ many = <<>> /\ elig = <<>> /\ sess = <<>> /\ tl = 0
        /\ pc = [k \in Ks |-> "new"]
        /\ job \in [Ks -> [name : Names, mode : {"one", "many"}]] /\ job[1].name = "n1"
        /\ cp = [c \in Clients |-> "idle"]
        /\ cq = [c \in Clients |-> [op |-> "", names |-> {}]]
        /\ seen = [c \in Clients |-> <<>>]
        /\ ntok = 0 /\ left = MaxCheckins
        /\ mon = New /\ ok = TRUE

Feed(es) ==
  LET RECURSIVE go(_, _)
      go(ss, q) == IF q = <<>> THEN ss ELSE go(UNION {Steps(x, Head(q)) : x \in ss}, Tail(q))
      r == go({mon}, es)
  IN IF r = {} THEN ok' = FALSE /\ mon' = mon ELSE ok' = ok /\ mon' \in r

CallEv(t, op, k, name, mode, names) ==
  [e |-> "call", t |-> t, op |-> op, k |-> k, name |-> name, mode |-> mode, names |-> names]
RetEv(t, r, v, toks) == [e |-> "ret", t |-> t, r |-> r, v |-> v, toks |-> toks]
Whole(t, op, k, name, mode, r) == <<CallEv(t, op, k, name, mode, <<>>), RetEv(t, r, <<>>, <<>>)>>

\* ---- a computation: its session, then published, then removed, then ended
Who(k) == 10 + k
Begin(k) == /\ pc[k] = "new" /\ \A j \in 1..(k - 1) : pc[j] # "new"
            /\ pc' = [pc EXCEPT ![k] = "add"]
            /\ sess' = Put(sess, K(k), {})
            /\ UNCHANGED <<one, many, elig, tl, job, cp, cq, seen, ntok, left, mon, ok>>
Publish(k) ==
  /\ pc[k] = "add" /\ tl = 0
  /\ pc' = [pc EXCEPT ![k] = "eadd"]
  /\ LET x == [k |-> K(k), name |-> job[k].name] IN
     IF job[k].mode = "one" THEN one' = Append(one, x) /\ many' = many
     ELSE many' = Append(many, x) /\ one' = one
  /\ Feed(Whole(Who(k), "add", K(k), job[k].name, job[k].mode, "ok"))
  /\ UNCHANGED <<elig, sess, tl, job, cp, cq, seen, ntok, left>>
Announce(k) ==
  /\ pc[k] = "eadd"
  /\ pc' = [pc EXCEPT ![k] = "on"]
  /\ elig' = IF Bug = "byname" /\ \E i \in 1..Len(elig) : elig[i][1] = job[k].name
               THEN elig ELSE Append(elig, <<job[k].name, job[k].mode>>)
  /\ Feed(Whole(Who(k), "eadd", "", job[k].name, job[k].mode, "ok"))
  /\ UNCHANGED <<one, many, sess, tl, job, cp, cq, seen, ntok, left>>
Retire(k) ==
  /\ pc[k] = "on" /\ tl = 0
  /\ pc' = [pc EXCEPT ![k] = "erem"]
  /\ LET others(q) == SelectSeq(q, LAMBDA x : IF Bug = "names" THEN x.name # job[k].name ELSE x.k # K(k))
     IN one' = others(one) /\ many' = others(many)
  /\ Feed(Whole(Who(k), "rem", K(k), "", "", "ok"))
  /\ UNCHANGED <<elig, sess, tl, job, cp, cq, seen, ntok, left>>
Withdraw(k) ==
  LET is == {i \in 1..Len(elig) : elig[i][1] = job[k].name} IN
  /\ pc[k] = "erem"
  /\ pc' = [pc EXCEPT ![k] = "end"]
  \* The service knows names only, so any of that name may go.
  /\ IF is = {} THEN elig' = elig /\ Feed(Whole(Who(k), "erem", "", job[k].name, "", "error"))
     ELSE /\ elig' = Without(elig, CHOOSE i \in is : \A j \in is : i <= j)
          /\ Feed(Whole(Who(k), "erem", "", job[k].name, "", "ok"))
  /\ UNCHANGED <<one, many, sess, tl, job, cp, cq, seen, ntok, left>>
End(k) ==
  /\ pc[k] = IF Bug = "order" THEN "on" ELSE "end"
  /\ pc' = [pc EXCEPT ![k] = "over"]
  /\ sess' = Drop(sess, K(k))
  /\ Feed(<<[e |-> "ended", k |-> K(k)]>>)
  /\ UNCHANGED <<one, many, elig, tl, job, cp, cq, seen, ntok, left>>

\* ---- clients
Ask(c) ==
  /\ cp[c] = "idle" /\ left > 0 /\ left' = left - 1
  /\ \E q \in {[op |-> "checkin", names |-> {}]} \cup {[op |-> "checkins", names |-> n] : n \in {{"n1"}, Names}}
             \cup {[op |-> "list", names |-> {}]} :
       /\ cq' = [cq EXCEPT ![c] = q]
       /\ Feed(<<CallEv(c, q.op, "", "", "right",
                        IF q.names = {} THEN <<>> ELSE IF q.names = {"n1"} THEN <<"n1">> ELSE <<"n2", "n1">>)>>)
  /\ cp' = [cp EXCEPT ![c] = "look"]
  /\ UNCHANGED <<one, many, elig, sess, tl, pc, job, seen, ntok>>

\* Reads the tasks; keeps the lock until the client is authorized.
Look(c) ==
  /\ cp[c] = "look" /\ (cq[c].op # "list" => tl = 0)
  /\ tl' = IF cq[c].op = "list" \/ Bug = "gap" THEN tl ELSE c
  /\ seen' = [seen EXCEPT ![c] =
       CASE cq[c].op = "checkin" ->
              IF one = <<>> THEN <<>> ELSE <<(IF Bug = "newest" THEN one[Len(one)] ELSE Head(one)).k>>
         [] cq[c].op = "checkins" ->
              (IF Bug = "first" /\ Len(many) > 1 THEN Named(SubSeq(many, 1, 1), cq[c].names) ELSE Named(many, cq[c].names))
         [] OTHER -> [i \in 1..Len(elig) |-> elig[i][1] \o "/" \o elig[i][2]]]
  /\ cp' = [cp EXCEPT ![c] = "auth"]
  /\ UNCHANGED <<one, many, elig, sess, pc, job, cq, ntok, left, mon, ok>>

Answer(c) ==
  LET v == seen[c]
      toks == IF cq[c].op = "list" THEN <<>> ELSE [i \in 1..Len(v) |-> T(ntok + (IF Bug = "same" THEN 1 ELSE i))]
  IN
  /\ cp[c] = "auth"
  /\ cp' = [cp EXCEPT ![c] = "idle"]
  /\ tl' = IF tl = c THEN 0 ELSE tl
  /\ ntok' = ntok + Len(toks)
  \* A session that has ended cannot authorize anyone: an internal error.
  /\ IF cq[c].op # "list" /\ \E i \in 1..Len(v) : v[i] \notin DOMAIN sess
       THEN sess' = sess /\ Feed(<<RetEv(c, "failed", <<>>, <<>>)>>)
       ELSE /\ sess' = IF cq[c].op = "list" THEN sess
                       ELSE [k \in DOMAIN sess |-> sess[k] \cup {toks[i] : i \in {j \in 1..Len(v) : v[j] = k}}]
            /\ Feed(<<RetEv(c, "ok", v, toks)>>)
  /\ UNCHANGED <<one, many, elig, pc, job, cq, seen, left>>

\* A token is tried.
Use == /\ left = 0 /\ \A c \in Clients : cp[c] = "idle"
       /\ \E i \in 1..ntok, k \in Ks :
            LET good == K(k) \in DOMAIN sess /\ T(i) \in sess[K(k)] IN
            /\ sess' = IF good /\ Bug # "again" THEN [sess EXCEPT ![K(k)] = @ \ {T(i)}] ELSE sess
            /\ Feed(<<[e |-> "use", k |-> K(k), tok |-> T(i), ok |-> good]>>)
       /\ UNCHANGED <<one, many, elig, tl, pc, job, cp, cq, seen, ntok, left>>

Next == \/ \E k \in Ks : Begin(k) \/ Publish(k) \/ Announce(k) \/ Retire(k) \/ Withdraw(k) \/ End(k)
        \/ \E c \in Clients : Ask(c) \/ Look(c) \/ Answer(c)
        \/ Use
Spec == Init /\ [][Next]_vars

Legal == ok
\* When all computations are over nothing is left published.
Clean == (\A k \in Ks : pc[k] \in {"new", "over"}) => one = <<>> /\ many = <<>> /\ elig = <<>>
=============================================================================
