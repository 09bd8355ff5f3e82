------------------------------- MODULE SecAgg -------------------------------
(* Whole protocol: one server, N clients, FIFO channels.  Explored           *)
(* exhaustively for small cohorts; masks are symbolic.                       *)
EXTENDS SecAggServer, SecAggClient, TLC

CONSTANTS N, Min, Degree, Thr, MaxFaults, Ring, Async

VARIABLES srv, cl, toS, toC, faults, view, bg, tellLog, disclosed
vars == <<srv, cl, toS, toC, faults, view, bg, tellLog, disclosed>>

C == 0..(N - 1)
\* Complete graph: everyone in id order.  Ring: each client and its two sides.
Nbrs == [i \in C |-> IF ~Ring THEN [p \in 1..N |-> p - 1]
                     ELSE [p \in 1..3 |-> (i + p + N - 2) % N]]
LiveNb(s) == [i \in C |-> [p \in 1..Degree |->
                LET j == Nbrs[i][p] IN IF s.st[j] \in {"NEW", "D0"} THEN -1 ELSE j]]

Init ==
  /\ srv = NewServer(N, Min, Degree, Thr, Async)
  /\ cl = [i \in C |-> [NewClient(Degree, Thr) EXCEPT !.inp = i # 1]]
  /\ toS = [i \in C |-> <<>>] /\ toC = [i \in C |-> <<>>]
  /\ faults = 0
  /\ view = [i \in C |-> {}]        \* peers whose pairwise mask is in i's masked input
  /\ bg = FALSE                     \* background work unfinished
  /\ tellLog = [i \in C |-> 0]
  /\ disclosed = [i \in C |-> [j \in C |-> {}]]

(* Client i did res: queue its output. *)
Nb(i, p) == srv.nb[i][p]
PushC(i, res) ==
  /\ cl' = [cl EXCEPT ![i] = res.c]
  /\ toS' = [toS EXCEPT ![i] = @ \o [k \in 1..Len(res.out) |->
         LET o == res.out[k] IN
         CASE o.k \in {"adv", "msk"} -> [k |-> o.k, ok |-> TRUE]
           [] OTHER -> o]]
  /\ view' = IF \E k \in 1..Len(res.out) : res.out[k].k = "msk"
             THEN [view EXCEPT ![i] = {srv.nb[i][p] : p \in {q \in 1..Len(res.c.peers) :
                                          res.c.peers[q] = "alive" /\ q # res.c.me}}]
             ELSE view
  /\ disclosed' = IF \E k \in 1..Len(res.out) : res.out[k].k = "unm"
       THEN LET o == res.out[CHOOSE k \in 1..Len(res.out) : res.out[k].k = "unm"] IN
            [disclosed EXCEPT ![i] = [j \in C |-> @[j] \cup
               {o.sh[p] : p \in {q \in 1..Len(o.sh) : Nb(i, q) = j /\ o.sh[q] # "none"}}]]
       ELSE disclosed

ClientStart(i) == cl[i].r = "R0" /\ PushC(i, Start(cl[i])) /\ UNCHANGED <<srv, toC, faults, bg, tellLog>>
ClientInput(i) == ~cl[i].inp /\ ~CTerminal(cl[i]) /\ cl[i].r # "R3" /\ PushC(i, SetInput(cl[i], TRUE))
                  /\ UNCHANGED <<srv, toC, faults, bg, tellLog>>
ClientAbort(i) == /\ faults < MaxFaults /\ ~CTerminal(cl[i]) /\ faults' = faults + 1
                  /\ PushC(i, CAbort(cl[i])) /\ UNCHANGED <<srv, toC, bg, tellLog>>
\* Translate a server message into what the client sees.
See(i, m) ==
  CASE m.k = "skq" -> [k |-> "skq", sid |-> TRUE, pk |-> [p \in 1..Degree |->
                         LET j == srv.nb[i][p] IN IF j = -1 THEN "empty" ELSE IF j = i THEN "self" ELSE "ok"]]
    [] m.k = "miq" -> [k |-> "miq", enc |-> [p \in 1..Degree |-> IF m.src[p] = -1 THEN "empty" ELSE "ok"]]
    [] m.k = "umq" -> [k |-> "umq", dead |-> LET S == m.dead IN
                         CHOOSE q \in [1..Cardinality(S) -> S] : {q[x] : x \in 1..Cardinality(S)} = S]
    [] OTHER -> m
ClientRecv(i) ==
  /\ toC[i] # <<>>
  /\ toC' = [toC EXCEPT ![i] = Tail(@)]
  /\ PushC(i, CRecv(cl[i], See(i, Head(toC[i]))))
  /\ UNCHANGED <<srv, faults, bg, tellLog>>

PushS(res) ==
  /\ srv' = res.s
  /\ toC' = [i \in C |-> toC[i] \o
       (IF \E m \in res.out : m.to = i THEN <<CHOOSE m \in res.out : m.to = i>> ELSE <<>>)]
  /\ tellLog' = [i \in C |-> tellLog[i] + Cardinality({m \in res.out : m.to = i /\ m.k = "abt"})]

ServerRecv(i) ==
  /\ toS[i] # <<>>
  /\ LET m == Head(toS[i]) res == Recv(srv, i, m, ~bg) IN
       /\ PushS(res)
       /\ bg' = (bg \/ (Async /\ srv.round = "R2" /\ res.s.rcv > srv.rcv))
  /\ toS' = [toS EXCEPT ![i] = Tail(@)]
  /\ UNCHANGED <<cl, faults, view, disclosed>>
ServerDrop(i) ==
  /\ faults < MaxFaults /\ ~Terminal(srv) /\ ~Dead(srv, i) /\ faults' = faults + 1
  /\ \E tell \in BOOLEAN : PushS(AbortClient(srv, i, tell))
  /\ UNCHANGED <<cl, toS, view, bg, disclosed>>
ServerProceed ==
  /\ ~Terminal(srv) /\ Ready(srv, ~bg)
  /\ PushS(Proceed(srv, ~bg, LiveNb(
        [srv EXCEPT !.st = [i \in C |-> IF srv.round = "R0" /\ srv.st[i] = "NEW" THEN "D0" ELSE srv.st[i]]])))
  /\ bg' = (srv.round = "R3" /\ ~MustAbort(srv))
  /\ UNCHANGED <<cl, toS, faults, view, disclosed>>
Background == bg /\ bg' = FALSE /\ UNCHANGED <<srv, cl, toS, toC, faults, view, tellLog, disclosed>>

MCNext == ServerProceed \/ Background \/ \E i \in C :
  ClientStart(i) \/ ClientInput(i) \/ ClientAbort(i) \/ ClientRecv(i) \/ ServerRecv(i) \/ ServerDrop(i)
Spec == Init /\ [][MCNext]_vars

(* ---- C01: when completed, all masks in the sum of accepted inputs vanish ---- *)
Inc == IncludedIds(srv)
Gone == {j \in C : srv.st[j] = "DSHR"}
MasksVanish == srv.round = "COMPLETED" =>
  /\ Inc # {}
  /\ \A i \in Inc : \A j \in view[i] : (j \in Inc /\ i \in view[j]) \/ j \in Gone
  /\ \A i \in Inc : \A j \in Gone :
       (\E p \in 1..Degree : srv.nb[i][p] = j) => j \in view[i]
  /\ CanUnmask(srv)
  /\ Cardinality(Inc) >= Min
(* ---- C02 ---- *)
NeverBoth == \A j \in C : ~("noise" \in UNION {disclosed[i][j] : i \in C} /\ "prf" \in UNION {disclosed[i][j] : i \in C})
OnlyAfterInput == \A i \in C : (\E j \in C : disclosed[i][j] # {}) =>
   \E a, b \in 1..Len(cl[i].sent) : a < b /\ cl[i].sent[a] = "msk" /\ cl[i].sent[b] = "unm"
NoiseOnlyOfDropped == \A i, j \in C : "noise" \in disclosed[i][j] => j \notin Inc
(* ---- C03 ---- *)
ToldOnce == \A i \in C : tellLog[i] <= 1
CountsAgree ==
  /\ Alive(srv) + FailedBefore(srv) + FailedAfter(srv) + EndedEarly(srv) = N
  /\ Alive(srv) >= 0 /\ Pending(srv) >= 0
AdvancedWithEnough == srv.round \in {"PRNG", "COMPLETED"} => Cardinality(Inc) >= Min
NoStuck == (~Terminal(srv) /\ ~Ready(srv, ~bg) /\ ~bg /\ \A i \in C : toS[i] = <<>> /\ toC[i] = <<>>)
             => Pending(srv) > 0
(* ---- C04 ---- *)
Order == [adv |-> 1, shr |-> 2, msk |-> 3, unm |-> 4, abt |-> 5]
InOrder == \A i \in C : \A a, b \in 1..Len(cl[i].sent) : a < b => Order[cl[i].sent[a]] < Order[cl[i].sent[b]]
=============================================================================
