--------------------------- MODULE FedSelectImpl ---------------------------
(* The iterator factory and the file-backed iterator.  Slices are buffered in *)
(* memory; Next opens the scratch file, writes, closes, and only then forgets *)
(* the slice.  Any of the steps may fail.  Every outcome must be one that     *)
(* FedSelect allows.                                                          *)
EXTENDS FedSelect

CONSTANTS MaxIts,     \* requests
          MaxKeys,    \* keys per request
          MaxNext,    \* calls of Next per iterator
          CleanUp,    \* a failed fetch removes its scratch file
          CheckClose  \* a failure to write buffered data at closing is noticed

VARIABLES s, ok,
          its,   \* iterators: [q: deque of slices, file, n: calls left, live]
          disk,  \* scratch files that exist: name -> content (a slice, or 0)
          cur,   \* the request in progress
          n      \* requests made
vars == <<s, ok, its, disk, cur, n>>

Idle == [pc |-> "idle", id |-> 0, keys |-> <<>>, rs |-> <<>>, file |-> ""]
Init == s = New /\ ok = TRUE /\ its = Empty /\ disk = Empty /\ cur = Idle /\ n = 0
Emit(e) == LET t == Steps(s, e) IN ok' = (t # {}) /\ s' = (IF t # {} THEN CHOOSE x \in t : TRUE ELSE s)
\* what is on the disk, as a sequence in some order
RECURSIVE Listing(_)
Listing(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o Listing(S \ {x})
Files(d) == Listing(DOMAIN d)
File(id) == "f" \o ToString(id)
Body(k) == 100 + k
Template == <<"u/", "{key}">>
KeySeqs == UNION {[1..k -> {1, 2}] : k \in 0..MaxKeys}

Create == /\ cur.pc = "idle" /\ n < MaxIts
          /\ \E ks \in KeySeqs, good \in BOOLEAN, tmpl \in {Template, <<>>} :
               /\ Emit([e |-> "create", id |-> n + 1, tmpl |-> tmpl, served |-> "", keys |-> ks, good |-> good])
               /\ cur' = [Idle EXCEPT !.pc = IF good /\ tmpl # <<>> THEN "temp" ELSE "refuse", !.id = n + 1, !.keys = ks]
          /\ n' = n + 1 /\ UNCHANGED <<its, disk>>
Made(st, d) == [e |-> "made", id |-> cur.id, st |-> st, files |-> Files(d)]
Refuse == cur.pc = "refuse" /\ Emit(Made("INVALID_ARGUMENT", disk)) /\ cur' = Idle /\ UNCHANGED <<its, disk, n>>
Temp == /\ cur.pc = "temp"
        /\ \E good \in BOOLEAN :
             /\ Emit([e |-> "temp", ok |-> good, file |-> IF good THEN File(cur.id) ELSE ""])
             /\ disk' = IF good THEN (File(cur.id) :> 0) @@ disk ELSE disk
             /\ cur' = [cur EXCEPT !.pc = IF good THEN "fetch" ELSE "nofile", !.file = File(cur.id)]
        /\ UNCHANGED <<its, n>>
NoFile == cur.pc = "nofile" /\ Emit(Made("INTERNAL", disk)) /\ cur' = Idle /\ UNCHANGED <<its, disk, n>>
Fetch == /\ cur.pc = "fetch"
         /\ \E oks \in [DOMAIN cur.keys -> BOOLEAN], all \in BOOLEAN :
              /\ Emit([e |-> "fetch", ok |-> all, sent |-> 1, got |-> 2,
                       rs |-> [i \in DOMAIN cur.keys |-> [uri |-> "u/" \o ToString(cur.keys[i]), ok |-> oks[i], h |-> Body(cur.keys[i])]]])
              /\ cur' = [cur EXCEPT !.pc = IF all /\ \A i \in DOMAIN oks : oks[i] THEN "done" ELSE "fail"]
         /\ UNCHANGED <<its, disk, n>>
Without(d, f) == [x \in DOMAIN d \ {f} |-> d[x]]
Fail == /\ cur.pc = "fail"
        /\ disk' = IF CleanUp THEN Without(disk, cur.file) ELSE disk
        /\ Emit(Made("UNAVAILABLE", disk')) /\ cur' = Idle /\ UNCHANGED <<its, n>>
Done == /\ cur.pc = "done" /\ Emit(Made("OK", disk)) /\ cur' = Idle
        /\ its' = (cur.id :> [q |-> [i \in DOMAIN cur.keys |-> Body(cur.keys[i])], file |-> cur.file, n |-> MaxNext, live |-> TRUE]) @@ its
        /\ UNCHANGED <<disk, n>>
Live == {i \in DOMAIN its : its[i].live}
Next_ == /\ cur.pc = "idle"
         /\ \E i \in Live : its[i].n > 0 /\
              LET it == its[i] IN
              IF it.q = <<>>
              THEN /\ disk' = Without(disk, it.file) /\ its' = [its EXCEPT ![i].n = @ - 1]
                   /\ Emit([e |-> "next", id |-> i, st |-> "OUT_OF_RANGE", full |-> FALSE, file |-> "", h |-> 0, files |-> Files(disk')])
              ELSE \E out \in {"fine", "open", "write", "close"} :
                   LET content == IF out = "fine" THEN Head(it.q) ELSE 0
                       failed == out \in {"open", "write"} \/ (out = "close" /\ CheckClose)
                   IN /\ disk' = IF out = "open" THEN disk ELSE (it.file :> content) @@ disk
                      /\ its' = [its EXCEPT ![i].n = @ - 1, ![i].q = IF failed THEN @ ELSE Tail(@)]
                      /\ Emit([e |-> "next", id |-> i, st |-> IF failed THEN "INTERNAL" ELSE "OK", full |-> out # "fine",
                               file |-> IF failed THEN "" ELSE it.file, h |-> content, files |-> Files(disk')])
         /\ UNCHANGED <<cur, n>>
Close == /\ cur.pc = "idle"
         /\ \E i \in Live : /\ its[i].n > 0 /\ disk' = Without(disk, its[i].file)
                            /\ its' = [its EXCEPT ![i].q = <<>>, ![i].n = @ - 1]
                            /\ Emit([e |-> "close", id |-> i, files |-> Files(disk')])
         /\ UNCHANGED <<cur, n>>
Drop == /\ cur.pc = "idle"
        /\ \E i \in Live : /\ disk' = Without(disk, its[i].file) /\ its' = [its EXCEPT ![i].live = FALSE]
                           /\ Emit([e |-> "drop", id |-> i, files |-> Files(disk')])
        /\ UNCHANGED <<cur, n>>
Next == ok /\ (Create \/ Refuse \/ Temp \/ NoFile \/ Fetch \/ Fail \/ Done \/ Next_ \/ Close \/ Drop)
Spec == Init /\ [][Next]_vars

Allowed == ok
\* once nothing is in use, nothing is left on the disk
NoLitter == (cur.pc = "idle" /\ Live = {}) => disk = Empty
\* slices not handed out yet are exactly the ones still owed
Owed == \A i \in Live : its[i].q = s.its[i].left
=============================================================================
