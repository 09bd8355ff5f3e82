----------------------------- MODULE FetchImpl -----------------------------
(* The in-memory response callback (status, expected length, buffer) driven  *)
(* by every sequence of callbacks the client contract allows, for a list of  *)
(* resources whose requests make progress in any order; then the assembly of *)
(* the results by position.  A resource is inline, cached or remote.         *)
EXTENDS Fetch, FiniteSets

CONSTANTS Max,      \* number of resources
          MaxLen    \* bytes

Kinds == {"inline", "cached", "remote"}
VARIABLES kind, req, tr, cb, pc, out, stored
vars == <<kind, req, tr, cb, pc, out, stored>>
Pos == 1..Len(kind)

\* Requests are made for the remote resources, in order; idx maps a position to its slot.
Slots(k) == SelectSeq([i \in 1..Len(k) |-> i], LAMBDA i : k[i] = "remote")
NoTransfer == [started |-> FALSE, code |-> 0, enc |-> FALSE, tenc |-> FALSE, len |-> -1, n |-> 0, end |-> "open"]
Init == /\ kind \in UNION {[1..m -> Kinds] : m \in 1..Max}
        /\ req = Slots(kind)
        /\ tr = [j \in 1..Len(req) |-> NoTransfer]
        /\ cb = [j \in 1..Len(req) |-> [st |-> "UNAVAILABLE", exp |-> -1, buf |-> 0, code |-> 0]]
        /\ pc = "run" /\ out = <<>> /\ stored = {}

Started(j) ==
  /\ tr[j].end = "open" /\ ~tr[j].started
  /\ \E code \in {200, 204, 404}, enc \in BOOLEAN, tenc \in BOOLEAN, len \in -2..MaxLen :
       LET bad == enc \/ tenc \/ len = -2 IN
       /\ tr' = [tr EXCEPT ![j] = [@ EXCEPT !.started = TRUE, !.code = code, !.enc = enc, !.tenc = tenc, !.len = len,
                                            !.end = IF bad THEN "error" ELSE "open"]]
       /\ cb' = [cb EXCEPT ![j] = [@ EXCEPT !.code = code, !.st = IF bad THEN "INVALID_ARGUMENT" ELSE @,
                                            !.exp = IF bad THEN @ ELSE len]]
Body(j, n) ==
  /\ tr[j].end = "open" /\ tr[j].started /\ tr[j].n + n <= MaxLen + 1
  /\ IF cb[j].exp # -1 /\ cb[j].buf + n > cb[j].exp
     THEN /\ cb' = [cb EXCEPT ![j].st = "OUT_OF_RANGE"]
          /\ tr' = [tr EXCEPT ![j] = [@ EXCEPT !.n = @ + n, !.end = "error"]]
     ELSE /\ cb' = [cb EXCEPT ![j].buf = @ + n] /\ tr' = [tr EXCEPT ![j].n = @ + n]
Fail(j) == /\ tr[j].end = "open" /\ cb' = [cb EXCEPT ![j].st = "ERROR"] /\ tr' = [tr EXCEPT ![j].end = "error"]
Nothing(j) == /\ tr[j].end = "open" /\ ~tr[j].started /\ tr' = [tr EXCEPT ![j].end = "nothing"] /\ UNCHANGED cb
Complete(j) ==
  /\ tr[j].end = "open" /\ tr[j].started
  /\ tr' = [tr EXCEPT ![j].end = "complete"]
  /\ cb' = [cb EXCEPT ![j].st = IF cb[j].exp # -1 /\ cb[j].buf # cb[j].exp THEN "INVALID_ARGUMENT"
                                ELSE IF HttpOk(cb[j].code) THEN "OK" ELSE HttpError(cb[j].code)]
Net == /\ pc = "run" /\ UNCHANGED <<kind, req, pc, out, stored>>
       /\ \E j \in 1..Len(req) : \/ Started(j) \/ Fail(j) \/ Nothing(j) \/ Complete(j)
                                 \/ \E n \in 1..2 : Body(j, n)
Gather == /\ pc = "run" /\ \A j \in 1..Len(req) : tr[j].end # "open"
          /\ pc' = "gather" /\ UNCHANGED <<kind, req, tr, cb, out, stored>>
\* One result after the other; the accessor of a remote resource knows its slot.
SlotOf(i) == Cardinality({k \in 1..i : kind[k] = "remote"})
Item(i) == IF kind[i] = "remote" THEN [st |-> cb[SlotOf(i)].st, from |-> req[SlotOf(i)], n |-> cb[SlotOf(i)].buf]
                                 ELSE [st |-> "OK", from |-> i, n |-> 0]
Assemble == /\ pc = "gather" /\ Len(out) < Len(kind)
            /\ LET i == Len(out) + 1 IN
               /\ out' = Append(out, Item(i))
               /\ stored' = IF kind[i] = "remote" /\ Item(i).st = "OK" THEN stored \cup {i} ELSE stored
            /\ UNCHANGED <<kind, req, tr, cb, pc>>
Next == Net \/ Gather \/ Assemble
Spec == Init /\ [][Next]_vars

Exact == \A i \in 1..Len(out) :
  /\ out[i].from = i
  /\ kind[i] # "remote" => out[i].st = "OK"
  /\ kind[i] = "remote" =>
       LET x == tr[SlotOf(i)] IN /\ (out[i].st = "OK") <=> Succeeds(x)
                                 /\ out[i].st = "OK" => out[i].n = x.n
                                 /\ out[i].st # "OK" => ErrorIs(x, out[i].st)
OnlyGood == \A i \in stored : Succeeds(tr[SlotOf(i)])
=============================================================================
