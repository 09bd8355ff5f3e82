---------------------------- MODULE SecAggClient ----------------------------
(* A secure aggregation client as a state machine; same style as             *)
(* SecAggServer.tla.  Client record:                                         *)
(*   r       round: R0 R1 R2 R2W (waits for input) R3 COMPLETED ABORTED      *)
(*   inp     the input was set                                               *)
(*   max,min neighbours expected at most, needed at least                    *)
(*   me      own position in the neighbour list (0 = unknown)                *)
(*   peers   what is known of each neighbour: alive dead1 dead2 dead3        *)
(*   sent    kinds of messages sent so far, in order                         *)
EXTENDS Naturals, Integers, Sequences, FiniteSets

NewClient(max, min) ==
  [r |-> "R0", inp |-> FALSE, max |-> max, min |-> min, me |-> 0, peers |-> <<>>, sent |-> <<>>]

CTerminal(c) == c.r \in {"COMPLETED", "ABORTED"}

StateName(c) ==
  CASE c.r = "R0" -> IF c.inp THEN "R0_ADVERTISE_KEYS_INPUT_SET" ELSE "R0_ADVERTISE_KEYS_INPUT_NOT_SET"
    [] c.r = "R1" -> IF c.inp THEN "R1_SHARE_KEYS_INPUT_SET" ELSE "R1_SHARE_KEYS_INPUT_NOT_SET"
    [] c.r = "R2" -> IF c.inp THEN "R2_MASKED_INPUT_COLL_INPUT_SET" ELSE "R2_MASKED_INPUT_COLL_INPUT_NOT_SET"
    [] c.r = "R2W" -> "R2_MASKED_INPUT_COLL_WAITING_FOR_INPUT"
    [] c.r = "R3" -> "R3_UNMASKING"
    [] OTHER -> c.r

AliveN(peers) == Cardinality({p \in 1..Len(peers) : peers[p] = "alive"})

Go(c, c2, ret, out) == [c |-> [c2 EXCEPT !.sent = @ \o [k \in 1..Len(out) |-> out[k].k]], ret |-> ret, out |-> out]
Refuse(c, code) == [c |-> c, ret |-> code, out |-> <<>>]
Active(c) == IF CTerminal(c) THEN "F" ELSE "T"
AbortTell(c, ret) == Go(c, [c EXCEPT !.r = "ABORTED"], ret, <<[k |-> "abt"]>>)

Start(c) == IF c.r = "R0" THEN Go(c, [c EXCEPT !.r = "R1"], "OK", <<[k |-> "adv"]>>)
            ELSE Refuse(c, "FAILED_PRECONDITION")

SetInput(c, ok) ==
  IF CTerminal(c) \/ c.inp \/ c.r = "R3" THEN Refuse(c, "FAILED_PRECONDITION")
  ELSE IF ~ok THEN Refuse(c, "INVALID_ARGUMENT")
  ELSE IF c.r = "R2W" THEN Go(c, [c EXCEPT !.r = "R3", !.inp = TRUE], "OK", <<[k |-> "msk"]>>)
  ELSE Go(c, [c EXCEPT !.inp = TRUE], "OK", <<>>)

CAbort(c) == IF CTerminal(c) THEN [c |-> c, ret |-> "OK", out |-> <<>>] ELSE AbortTell(c, "OK")

(* ---- messages from the server ---- *)
Me(m) == {p \in 1..Len(m.pk) : m.pk[p] = "self"}
ValidKeys(c, m) ==
  /\ Len(m.pk) >= c.min /\ Len(m.pk) <= c.max
  /\ m.sid
  /\ \A p \in 1..Len(m.pk) : m.pk[p] # "bad"
  /\ Cardinality(Me(m)) = 1
  /\ Cardinality({p \in 1..Len(m.pk) : m.pk[p] # "empty"}) >= c.min

\* After masked-input requests: peers without shares are dead.
PeersAfter(c, m) == [p \in 1..Len(c.peers) |->
   IF p # c.me /\ c.peers[p] = "alive" /\ m.enc[p] = "empty" THEN "dead2" ELSE c.peers[p]]
ValidShares(c, m) ==
  /\ Len(m.enc) = Len(c.peers)
  /\ \A p \in 1..Len(m.enc) : p # c.me =>
        IF c.peers[p] = "alive" THEN m.enc[p] # "bad" ELSE m.enc[p] = "empty"
  /\ AliveN(PeersAfter(c, m)) >= c.min

\* Unmasking requests name dead peers by position (counted from 1).
NamedDead(m) == {m.dead[k] : k \in 1..Len(m.dead)}
ValidUnmask(c, m) ==
  /\ \A k \in 1..Len(m.dead) : m.dead[k] \in 1..Len(c.peers) /\ m.dead[k] # c.me
                               /\ c.peers[m.dead[k]] = "alive"
  /\ Cardinality(NamedDead(m)) = Len(m.dead)
  /\ AliveN(c.peers) - Len(m.dead) >= c.min
Disclosed(c, m) == [p \in 1..Len(c.peers) |->
   IF c.peers[p] # "alive" THEN "none" ELSE IF p \in NamedDead(m) THEN "noise" ELSE "prf"]

CRecv(c, m) ==
  IF CTerminal(c) THEN Refuse(c, "FAILED_PRECONDITION")
  ELSE IF m.k = "abt" THEN
    Go(c, [c EXCEPT !.r = IF m.early THEN "COMPLETED" ELSE "ABORTED"], "F", <<>>)
  ELSE IF c.r = "R1" /\ m.k = "skq" THEN
    IF ~ValidKeys(c, m) THEN AbortTell(c, "F")
    ELSE LET me == CHOOSE p \in Me(m) : TRUE IN
         Go(c, [c EXCEPT !.r = "R2", !.me = me,
                  !.peers = [p \in 1..Len(m.pk) |-> IF m.pk[p] = "empty" THEN "dead1" ELSE "alive"]],
            "T", <<[k |-> "shr", pr |-> [p \in 1..Len(m.pk) |-> p # me /\ m.pk[p] # "empty"]]>>)
  ELSE IF c.r = "R2" /\ m.k = "miq" THEN
    IF ~ValidShares(c, m) THEN AbortTell(c, "F")
    ELSE IF c.inp THEN Go(c, [c EXCEPT !.r = "R3", !.peers = PeersAfter(c, m)], "T", <<[k |-> "msk"]>>)
    ELSE Go(c, [c EXCEPT !.r = "R2W", !.peers = PeersAfter(c, m)], "T", <<>>)
  ELSE IF c.r = "R3" /\ m.k = "umq" THEN
    IF ~ValidUnmask(c, m) THEN AbortTell(c, "F")
    ELSE Go(c, [c EXCEPT !.r = "COMPLETED"], "F", <<[k |-> "unm", sh |-> Disclosed(c, m)]>>)
  ELSE Refuse(c, "FAILED_PRECONDITION")

(* A call during which the application aborts from another thread: the abort  *)
(* takes effect before the call, in its middle, or after it.                   *)
During(c, a, later(_)) ==
  LET b == CAbort(a.c) x == CAbort(c) y == later(x.c) IN
  {[c |-> b.c, ret |-> a.ret, out |-> a.out \o b.out],
   [c |-> y.c, ret |-> y.ret, out |-> x.out \o y.out]}
  \cup (IF CTerminal(c) THEN {}
        ELSE {[c |-> x.c, ret |-> r, out |-> <<[k |-> "abt"]>>] : r \in {"F", a.ret}})
CRecvAborted(c, m) == LET f(d) == CRecv(d, m) IN During(c, CRecv(c, m), f)
CInputAborted(c, ok) == LET f(d) == SetInput(d, ok) IN During(c, SetInput(c, ok), f)
=============================================================================
