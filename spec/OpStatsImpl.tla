---------------------------- MODULE OpStatsImpl ----------------------------
(* The store's update algorithm and the logger's way of finding its own      *)
(* entry again, with failing reads and writes, corruption and restarts.      *)
EXTENDS OpStats, TLC

CONSTANTS Runs, Ttl, MaxSize, MaxNow, MaxCommits, Faults,
          ByFlag   \* TRUE: the original rule (a flag instead of comparing entries)
VARIABLES now, run,     \* run: [r, n: commits so far, a, t: first and last event, mine: entries it tried to store, flag]
          faults, rec   \* rec: the update just made
ivars == <<ovars, now, run, faults, rec>>

Entry(x, k) == [r |-> x.r, k |-> k, t |-> x.t, a |-> x.a, sz |-> 1]
\* Runs with an even number record their events in phases.
Plain(e) == e.r % 2 = 1 /\ e.a >= 0
IInit == OInit /\ now = 1 /\ faults = 0 /\ rec = [k |-> "-"]
         /\ run = [r |-> 0, n |-> 0, a |-> -1, t |-> -1, mine |-> {}, flag |-> FALSE]
Flt == faults < Faults /\ faults' = faults + 1
NoRec == rec' = [k |-> "-"]

Tick == now < MaxNow /\ now' = now + 1 /\ NoRec /\ UNCHANGED <<ovars, run, faults>>
Start == /\ ~open /\ run.r < Runs /\ OpenOk(now) /\ NoRec /\ UNCHANGED <<now, faults>>
         /\ IF ett = -1 THEN db' = <<>> /\ ett' = -2 ELSE db' = db
         /\ run' = [r |-> run.r + 1, n |-> 0, a |-> -1, t |-> -1, mine |-> {}, flag |-> FALSE]
Stop == open /\ Close /\ NoRec /\ UNCHANGED <<now, run, faults>>
Damage == Corrupt /\ Flt /\ NoRec /\ UNCHANGED <<now, run>>
Event == open /\ NoRec /\ run' = [run EXCEPT !.a = IF @ < 0 THEN now ELSE @, !.t = now] /\ UNCHANGED <<ovars, now, faults>>

Oldest(s) == LET p == {i \in 1..Len(s) : Plain(s[i])}
             IN IF p = {} THEN now ELSE s[CHOOSE i \in p : \A j \in p : i <= j].a
Commit(ok) ==
  /\ open /\ run.n < MaxCommits /\ UNCHANGED now
  /\ LET before == IF bad THEN <<>> ELSE SelectSeq(db, LAMBDA e : ~May(e, now, Ttl))
         old == IF bad THEN -1 ELSE IF ett = -2 THEN lost ELSE ett
         e1 == IF ~bad /\ Len(before) < Len(db) THEN Max2(old, now - Ttl) ELSE old
         own == before # <<>> /\ (IF ByFlag THEN run.flag ELSE before[Len(before)] \in run.mine)
         x == Entry(run, run.n + 1)
         after == Append(IF own THEN SubSeq(before, 1, Len(before) - 1) ELSE before, x)
         cut == IF Len(after) > MaxSize THEN Len(after) - MaxSize ELSE 0
         s == SubSeq(after, cut + 1, Len(after))
         e2 == IF cut > 0 \/ e1 = -1 THEN Oldest(s) ELSE e1
     IN /\ rec' = [k |-> "tx", ok |-> ok, before |-> before, after |-> after, s |-> s, e |-> e2, x |-> x]
        /\ run' = [run EXCEPT !.n = @ + 1, !.mine = (IF ok THEN {} ELSE @) \cup {x}, !.flag = TRUE]
        /\ IF ok
           THEN /\ UNCHANGED <<faults, open>> /\ db' = s /\ ett' = e2 /\ bad' = FALSE
                /\ lost' = Max2(lost, Max2(Gone(db, s), Gone(after, s)))
           ELSE /\ Flt /\ UNCHANGED open
                /\ \/ bad' = TRUE /\ UNCHANGED <<db, ett, lost>>
                   \/ UNCHANGED <<db, ett, lost, bad>>
                   \/ /\ db' = s /\ ett' = e2 /\ bad' = FALSE
                      /\ lost' = Max2(lost, Max2(Gone(db, s), Gone(after, s)))
INext == Tick \/ Start \/ Stop \/ Damage \/ Event \/ \E ok \in BOOLEAN : Commit(ok)
ISpec == IInit /\ [][INext]_ivars

\* Room for MaxSize entries of one byte each, in the terms of OpStats: the
\* slack it grants for headers is not used.
Fits(s, after) == \E k \in 0..Len(after) : s = SubSeq(after, k + 1, Len(after)) /\ Len(s) <= MaxSize
                                          /\ (k > 0 => Len(s) = MaxSize)
Proper == rec.k = "tx" => /\ Committed(rec.before, rec.after, rec.x.r, rec.x.k)
                          /\ Fits(rec.s, rec.after)
                          /\ rec.ok => ett >= lost /\ db = rec.s
OnceEach == \A i, j \in 1..Len(db) : db[i].r = db[j].r => i = j
InOrder == \A i, j \in 1..Len(db) : i < j => db[i].r < db[j].r
Sees == [][rec'.k = "tx" /\ rec' # rec => Seen(rec'.before, now, Ttl, FALSE)]_ivars
=============================================================================
