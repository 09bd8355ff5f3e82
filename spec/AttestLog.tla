------------------------------ MODULE AttestLog ------------------------------
(* Records of verifications written to a log and read back.                   *)
(*   logged   a record was written: its digest, in how many parts; the parts  *)
(*            are in one line each, fit in one, and an empty one comes last   *)
(*   line     the next line of the log as it is read: a part of a record, the *)
(*            end of one (part 0), or something else (rec 0)                  *)
(*   extract, found, done   reading the log                                   *)
(* What stands between two ends is a record when it is all of its parts and   *)
(* nothing else; whatever is lost, repeated or mixed up costs only that.      *)
EXTENDS Naturals, Sequences, FiniteSets

New == [at |-> "log", recs |-> <<>>, n |-> 0, group |-> <<>>, first |-> 0, want |-> <<>>, got |-> 0]

Whole(s, g) ==
  /\ g # <<>>
  /\ \A i \in DOMAIN g : s.recs[g[i].rec] = s.recs[g[1].rec] /\ g[i].part = i
  /\ Len(g) = g[1].of

Steps(s, e) ==
  CASE e.e = "logged" ->
         IF s.at = "log" /\ s.n = 0 /\ e.rec = Len(s.recs) + 1 /\ e.ordered /\ e.short /\ e.plain /\ e.parts > 0
         THEN {[s EXCEPT !.recs = Append(@, e.digest)]} ELSE {}
    [] e.e = "line" ->
         LET n == s.n + 1
             first == IF s.group = <<>> THEN n ELSE s.first IN
         IF s.at # "log" THEN {}
         ELSE IF e.rec = 0 THEN {[s EXCEPT !.n = n]}
         ELSE IF e.part > 0 THEN {[s EXCEPT !.n = n, !.first = first, !.group = Append(@, [rec |-> e.rec, part |-> e.part, of |-> e.of])]}
         ELSE {[s EXCEPT !.n = n, !.group = <<>>, !.first = 0,
                         !.want = IF Whole(s, s.group) THEN Append(@, [digest |-> s.recs[s.group[1].rec], first |-> first, last |-> n]) ELSE @]}
    [] e.e = "extract" -> IF s.at = "log" THEN {[s EXCEPT !.at = "read"]} ELSE {}
    [] e.e = "found" ->
         IF s.at = "read" /\ s.got < Len(s.want)
            /\ LET w == s.want[s.got + 1] IN e.digest = w.digest /\ e.real = w.digest /\ e.first = w.first /\ e.last = w.last
         THEN {[s EXCEPT !.got = @ + 1]} ELSE {}
    [] e.e = "done" -> IF s.at = "read" /\ e.n = Len(s.want) /\ s.got = e.n THEN {[s EXCEPT !.at = "over"]} ELSE {}
    [] OTHER -> {}
=============================================================================
