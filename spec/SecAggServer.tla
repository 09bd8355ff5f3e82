---------------------------- MODULE SecAggServer ----------------------------
(* The secure aggregation server as a state machine.  All operators are      *)
(* functions from a server record and a call to [s: next record, ret: return *)
(* value, out: messages sent], so that the same definitions are explored by  *)
(* the model checker (SecAgg.tla) and compared with recorded executions of   *)
(* fcp::secagg::SecAggServer (SecAggTrace.tla).                              *)
(*                                                                           *)
(* Server record:                                                            *)
(*   n, min     clients in the cohort, minimum needed to go on               *)
(*   deg, thr   neighbours per client (incl. itself), shares to reconstruct  *)
(*   async      masked inputs are added up in the background                 *)
(*   round      R0 R1 R2 R3 PRNG COMPLETED ABORTED                           *)
(*   st         how far each client got                                      *)
(*   nb         neighbour lists (-1: was dead when the lists were sent)      *)
(*   rcv        valid messages received in this round                        *)
(*   told       clients that were told that they are aborted                 *)
(*   taken      the result was handed out                                    *)
EXTENDS Naturals, Integers, Sequences, FiniteSets

NewServer(n, min, deg, thr, async) ==
  [n |-> n, min |-> min, deg |-> deg, thr |-> thr, async |-> async, round |-> "R0",
   st |-> [i \in 0..(n - 1) |-> "NEW"], nb |-> [i \in 0..(n - 1) |-> <<>>],
   rcv |-> 0, told |-> {}, taken |-> FALSE]

Ids(s) == 0..(s.n - 1)
Deads == {"D0", "DADV", "DSHR", "DMSK", "DEARLY", "DUNM"}
Dead(s, i) == s.st[i] \in Deads
Count(s, S) == Cardinality({i \in Ids(s) : s.st[i] \in S})

FailedBefore(s) == Count(s, {"D0", "DADV", "DSHR"})
FailedAfter(s) == Count(s, {"DMSK"})
EndedEarly(s) == Count(s, {"DEARLY"})
Alive(s) == s.n - FailedBefore(s) - FailedAfter(s) - EndedEarly(s)

Collecting == {"R0", "R1", "R2", "R3"}
Terminal(s) == s.round \in {"COMPLETED", "ABORTED"}
Wants == [R0 |-> "ADV", R1 |-> "SHR", R2 |-> "MSK", R3 |-> "UNM"]
Had == [R0 |-> "NEW", R1 |-> "ADV", R2 |-> "SHR", R3 |-> "MSK"]
Kind == [R0 |-> "adv", R1 |-> "shr", R2 |-> "msk", R3 |-> "unm"]

Finished(s) == IF s.round \in {"R0", "R1", "R2"} THEN Count(s, {Wants[s.round]})
               ELSE IF s.round = "R3" THEN s.rcv ELSE 0
MustAbort(s) == s.round \in Collecting /\ Alive(s) < s.min
Ready(s, idle) ==
  CASE s.round \in {"R0", "R1", "R3"} -> Finished(s) >= s.min \/ MustAbort(s)
    [] s.round = "R2" -> idle /\ (Finished(s) >= s.min \/ MustAbort(s))
    [] s.round = "PRNG" -> idle
    [] OTHER -> FALSE

Max0(x) == IF x < 0 THEN 0 ELSE x
MinNeeded(s) == IF s.round \in Collecting THEN Max0(s.min - Finished(s)) ELSE 0
Pending(s) == IF s.round \in Collecting THEN Alive(s) - Finished(s) ELSE 0
Included(s) ==
  CASE s.round = "R2" -> s.rcv
    [] s.round \in {"R3", "PRNG", "COMPLETED"} -> s.n - FailedBefore(s)
    [] OTHER -> 0
Committed(s) == s.round \in {"R3", "PRNG", "COMPLETED", "ABORTED"}
AbortedIds(s) == {i \in Ids(s) : Dead(s, i)}
IncludedIds(s) == {i \in Ids(s) : s.st[i] \in {"MSK", "UNM", "DMSK", "DEARLY", "DUNM"}}

(* What the server asks of its status methods, in one record. *)
Obs(s, idle) ==
  [round |-> s.round, alive |-> Alive(s), pend |-> Pending(s), fb |-> FailedBefore(s),
   fa |-> FailedAfter(s), tw |-> EndedEarly(s), inc |-> Included(s), com |-> Committed(s),
   need |-> IF Terminal(s) THEN -1 ELSE MinNeeded(s),
   fin |-> IF Terminal(s) THEN -1 ELSE Finished(s),
   rcv |-> IF Terminal(s) THEN -1 ELSE s.rcv,
   ready |-> IF Terminal(s) THEN "ERR" ELSE IF Ready(s, idle) THEN "T" ELSE "F",
   dead |-> AbortedIds(s)]

AbortStatus(s, i, early) ==
  CASE s.round = "R0" -> "D0"
    [] s.round = "R1" -> "DADV"
    [] s.round = "R2" -> IF s.st[i] = "MSK" THEN "DMSK" ELSE "DSHR"
    [] s.round = "R3" -> IF s.st[i] = "UNM" THEN "DUNM" ELSE IF early THEN "DEARLY" ELSE "DMSK"
    [] OTHER -> "DUNM"

Drop(s, i) == IF Dead(s, i) THEN s ELSE [s EXCEPT !.st[i] = AbortStatus(s, i, FALSE)]
AbortMsg(i, early) == [to |-> i, k |-> "abt", early |-> early]
DropTell(s, i) == IF Dead(s, i) THEN [s |-> s, out |-> {}]
                  ELSE [s |-> [Drop(s, i) EXCEPT !.told = @ \cup {i}], out |-> {AbortMsg(i, FALSE)}]

(* ---- validity of a client's message in the current round ---- *)
NoMask == {"NEW", "D0", "ADV", "DADV"}
SelfMask == {"MSK", "UNM", "DMSK", "DEARLY", "DUNM"}
ShareKind(s, j) == IF j = -1 \/ (j >= 0 /\ s.st[j] \in NoMask) THEN "none"
                   ELSE IF s.st[j] \in SelfMask THEN "prf" ELSE "noise"

\* A share is due for every neighbour that was alive when the keys were sent out.
ShareDue(s, i, p) == s.nb[i][p] # -1 /\ s.nb[i][p] # i

Valid(s, i, m) ==
  CASE m.k = "adv" -> m.ok
    [] m.k = "shr" -> /\ Len(m.pr) = s.deg
                      /\ \A p \in 1..s.deg : m.pr[p] = ShareDue(s, i, p)
    [] m.k = "msk" -> m.ok
    [] m.k = "unm" -> /\ Len(m.sh) = s.deg
                      /\ \A p \in 1..s.deg : m.sh[p] = ShareKind(s, s.nb[i][p])
    [] OTHER -> FALSE

RetReady(s, idle) == IF Terminal(s) THEN "FAILED_PRECONDITION" ELSE IF Ready(s, idle) THEN "T" ELSE "F"

Recv(s, i, m, idle) ==
  IF Terminal(s) \/ i \notin Ids(s) THEN [s |-> s, ret |-> "FAILED_PRECONDITION", out |-> {}]
  ELSE LET r == IF m.k = "abt" THEN [s |-> Drop(s, i), out |-> {}]
                ELSE IF s.round = "PRNG" \/ s.st[i] # Had[s.round] \/ m.k # Kind[s.round] \/ ~Valid(s, i, m)
                THEN DropTell(s, i)
                ELSE [s |-> [s EXCEPT !.st[i] = Wants[s.round], !.rcv = @ + 1], out |-> {}]
       IN [s |-> r.s, ret |-> RetReady(r.s, idle), out |-> r.out]

AbortClient(s, i, tell) ==
  IF Terminal(s) \/ i \notin Ids(s) THEN [s |-> s, ret |-> "FAILED_PRECONDITION", out |-> {}]
  ELSE LET r == IF tell THEN DropTell(s, i) ELSE [s |-> Drop(s, i), out |-> {}]
       IN [s |-> r.s, ret |-> "OK", out |-> r.out]

Living(s) == {i \in Ids(s) : ~Dead(s, i)}
AbortAll(s) == [s |-> [s EXCEPT !.round = "ABORTED", !.told = @ \cup Living(s), !.rcv = 0],
                ret |-> "OK", out |-> {AbortMsg(i, FALSE) : i \in Living(s)}]
Abort(s) == IF Terminal(s) THEN [s |-> s, ret |-> "FAILED_PRECONDITION", out |-> {}] ELSE AbortAll(s)

(* ---- advancing ---- *)
Next(r) == CASE r = "R0" -> "R1" [] r = "R1" -> "R2" [] r = "R2" -> "R3" [] r = "R3" -> "PRNG"

Stragglers(s) == {i \in Ids(s) : ~Dead(s, i) /\ s.st[i] # Wants[s.round]}

\* Enough shares of every secret that is needed arrived.
Responders(s, j) == Cardinality({i \in Ids(s) : s.st[i] \in {"UNM", "DUNM"}
                                   /\ \E p \in 1..Len(s.nb[i]) : s.nb[i][p] = j})
CanUnmask(s) == \A j \in Ids(s) :
  s.st[j] \in (SelfMask \cup {"SHR", "DSHR"}) => Responders(s, j) >= s.thr

\* nb: neighbour lists chosen by the server's sharing graph (used in R0 only).
Proceed(s, idle, nb) ==
  IF Terminal(s) THEN [s |-> s, ret |-> "FAILED_PRECONDITION", out |-> {}]
  ELSE IF ~Ready(s, idle) THEN [s |-> s, ret |-> "UNAVAILABLE", out |-> {}]
  ELSE IF MustAbort(s) THEN AbortAll(s)
  ELSE IF s.round = "PRNG" THEN
    [s |-> [s EXCEPT !.round = IF CanUnmask(s) THEN "COMPLETED" ELSE "ABORTED"], ret |-> "OK", out |-> {}]
  ELSE
    LET early == s.round = "R3"
        cut == Stragglers(s)
        s1 == [s EXCEPT !.st = [i \in Ids(s) |-> IF i \in cut THEN AbortStatus(s, i, early) ELSE s.st[i]],
                        !.told = @ \cup cut,
                        !.nb = IF s.round = "R0" THEN nb ELSE @]
        s2 == [s1 EXCEPT !.round = Next(s.round), !.rcv = 0]
        req(i) ==
          CASE s.round = "R0" -> {[to |-> i, k |-> "skq"]}
            [] s.round = "R1" -> {[to |-> i, k |-> "miq",
                 src |-> [p \in 1..s.deg |-> LET j == s1.nb[i][p] IN
                            IF j >= 0 /\ j # i /\ s1.st[j] = "SHR" THEN j ELSE -1]]}
            [] s.round = "R2" -> {[to |-> i, k |-> "umq",
                 dead |-> {p \in 1..s.deg : s1.nb[i][p] >= 0 /\ s1.st[s1.nb[i][p]] = "DSHR"}]}
            [] OTHER -> {}
    IN [s |-> s2, ret |-> "OK",
        out |-> {AbortMsg(i, early) : i \in cut} \cup UNION {req(i) : i \in {j \in Ids(s) : ~Dead(s1, j)}}]

Result(s) == IF s.round = "COMPLETED" /\ ~s.taken
             THEN [s |-> [s EXCEPT !.taken = TRUE], ret |-> "OK", out |-> {}]
             ELSE [s |-> s, ret |-> "UNAVAILABLE", out |-> {}]

\* Neighbour lists are a sound sharing graph on the clients alive after round 0.
SoundGraph(s, nb) ==
  LET live == {i \in Ids(s) : s.st[i] = "ADV"} IN
  \A i \in live :
    /\ Len(nb[i]) = s.deg
    /\ \A p \in 1..s.deg : nb[i][p] = -1 \/ nb[i][p] \in live
    /\ \A p, q \in 1..s.deg : p # q /\ nb[i][p] # -1 => nb[i][p] # nb[i][q]
    /\ \E p \in 1..s.deg : nb[i][p] = i
    /\ \A p \in 1..s.deg : nb[i][p] # -1 => \E q \in 1..s.deg : nb[nb[i][p]][q] = i
    /\ s.deg = s.n => \A p \in 1..s.deg : nb[i][p] = IF (p - 1) \in live THEN p - 1 ELSE -1
=============================================================================
