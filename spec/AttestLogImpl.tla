---------------------------- MODULE AttestLogImpl ----------------------------
(* The reader as it is built: one pass over the lines, a buffer, the line     *)
(* where it began; over every log of parts, ends and other lines.             *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS Parts,     \* number of parts by record
          Lines,     \* longest log
          Bug
VARIABLES log, m, mon
vars == <<log, m, mon>>
P == <<1, 2>>
L == INSTANCE AttestLog

Recs == DOMAIN Parts
Digest(r) == "d" \o ToString(r)
Kinds == {[rec |-> 0, part |-> 0, of |-> 0]} \cup {[rec |-> r, part |-> p, of |-> Parts[r]] : r \in Recs, p \in 0..2}
Possible(k) == k.rec = 0 \/ k.part <= k.of
Event(k) == [e |-> "line", rec |-> k.rec, part |-> k.part, of |-> k.of]
Logged(r) == [e |-> "logged", rec |-> r, digest |-> Digest(r), parts |-> Parts[r], ordered |-> TRUE, short |-> TRUE, plain |-> TRUE]

Feed(s, q) ==
  LET F[i \in 0..Len(q)] == IF i = 0 THEN {s} ELSE UNION {L!Steps(x, q[i]) : x \in F[i - 1]} IN
  IF F[Len(q)] = {} THEN [s EXCEPT !.at = "wrong"] ELSE CHOOSE x \in F[Len(q)] : TRUE
Init ==
  /\ log = <<>>
  /\ m = [pc |-> "write", at |-> 0, start |-> 0, buf |-> <<>>, n |-> 0]
  /\ mon = Feed(L!New, [r \in Recs |-> Logged(r)])
Write ==
  /\ m.pc = "write" /\ Len(log) < Lines
  /\ \E k \in Kinds : Possible(k) /\ log' = Append(log, k) /\ mon' = Feed(mon, <<Event(k)>>) /\ UNCHANGED m
Begin == m.pc = "write" /\ m' = [m EXCEPT !.pc = "read"] /\ mon' = Feed(mon, <<[e |-> "extract"]>>) /\ UNCHANGED log

\* What decoding, unpacking and parsing accept.
Decodes(b) == IF Bug = "empty" /\ b = <<>> THEN TRUE
              ELSE /\ b # <<>> /\ \A i \in DOMAIN b : b[i].rec = b[1].rec
                   /\ IF Bug = "cut" THEN \A i \in DOMAIN b : b[i].part = i
                      ELSE b = [i \in 1..Parts[b[1].rec] |-> [rec |-> b[1].rec, part |-> i, of |-> b[1].of]]
Read ==
  /\ m.pc = "read" /\ m.at < Len(log)
  /\ LET k == log[m.at + 1]
         at == m.at + 1
         start == IF m.start = 0 THEN at ELSE m.start
         ok == Decodes(m.buf)
         found == [e |-> "found", digest |-> IF m.buf = <<>> THEN "" ELSE Digest(m.buf[1].rec), real |-> IF m.buf = <<>> THEN "" ELSE Digest(m.buf[1].rec),
                   first |-> start, last |-> at] IN
     IF k.rec = 0 THEN m' = [m EXCEPT !.at = at, !.start = IF Bug = "noise" /\ m.start = 0 THEN at ELSE @] /\ UNCHANGED mon
     ELSE IF k.part > 0 THEN m' = [m EXCEPT !.at = at, !.start = start, !.buf = Append(@, k)] /\ UNCHANGED mon
     ELSE /\ m' = [m EXCEPT !.at = at, !.start = IF Bug = "start" THEN start ELSE 0,
                            !.buf = IF Bug = "keep" /\ ~ok THEN @ ELSE <<>>, !.n = IF ok THEN @ + 1 ELSE @]
          /\ mon' = IF ok THEN Feed(mon, <<found>>) ELSE mon
  /\ UNCHANGED log
End ==
  /\ m.pc = "read" /\ m.at = Len(log)
  /\ m' = [m EXCEPT !.pc = "over"]
  /\ mon' = LET more == Bug = "eof" /\ Decodes(m.buf) IN
            Feed(mon, (IF more THEN <<[e |-> "found", digest |-> Digest(m.buf[1].rec), real |-> Digest(m.buf[1].rec), first |-> m.start, last |-> m.at]>> ELSE <<>>)
                      \o <<[e |-> "done", n |-> IF more THEN m.n + 1 ELSE m.n]>>)
  /\ UNCHANGED log
Next == Write \/ Begin \/ Read \/ End
Spec == Init /\ [][Next]_vars
Right == mon.at # "wrong"
=============================================================================
