------------------------------ MODULE OpStats ------------------------------
(* The store of operational statistics.  An entry is                         *)
(*   [r: run, k: contents, t: last event, a: first event, sz: bytes]         *)
(* with times in ms; t = a = -1 without events.  db is the stored sequence,  *)
(* ett the stated time since when the history is complete (-1: no file yet,  *)
(* -2: not looked at yet), lost the latest   *)
(* last event of any entry dropped so far.  bad: the file is unreadable.     *)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES db, ett, lost, bad, open
ovars == <<db, ett, lost, bad, open>>
OInit == db = <<>> /\ ett = -1 /\ lost = -1 /\ bad = FALSE /\ open = FALSE

Sec(ms) == ms - (ms % 1000)  \* stamps are whole seconds
Max2(a, b) == IF a > b THEN a ELSE b
RECURSIVE Latest(_)
Latest(s) == IF s = <<>> THEN -1 ELSE Max2(Head(s).t, Latest(Tail(s)))
RECURSIVE Size(_)
Size(s) == IF s = <<>> THEN 0 ELSE Head(s).sz + Size(Tail(s))

\* What is left of s when entries older than ttl are dropped (those without
\* any event have no age and may go at any time).
Must(e, now, ttl) == e.t >= 0 /\ e.t < now - ttl
May(e, now, ttl) == e.t < 0 \/ Must(e, now, ttl)
Fresh(s, now, ttl) ==
  {SelectSeq(s, LAMBDA e : ~Must(e, now, ttl)), SelectSeq(s, LAMBDA e : ~May(e, now, ttl))}

\* The oldest entries go until the rest fits; an implementation may count a
\* few bytes too many per entry and for the header.
Pruned(s, max) ==
  {SubSeq(s, k + 1, Len(s)) : k \in {j \in 0..Len(s) :
      /\ Size(SubSeq(s, j + 1, Len(s))) <= max \/ j = Len(s)
      /\ j > 0 => Size(SubSeq(s, j, Len(s))) + 32 + 4 * j > max}}

Gone(s, rest) == Latest(SelectSeq(s, LAMBDA e : \A i \in 1..Len(rest) : rest[i].r # e.r))

\* Opening.  An unreadable (for example truncated) file may be started over.
OpenOk(now) ==
  /\ ~open /\ open' = TRUE
  /\ \/ UNCHANGED <<db, ett, lost, bad>>
     \/ (bad \/ ett = -1) /\ db' = <<>> /\ ett' = -2 /\ bad' = FALSE /\ lost' = Max2(lost, Sec(now))
OpenBusy == open /\ UNCHANGED ovars
OpenCut(now) == ~open /\ open' = FALSE /\
  \/ UNCHANGED <<db, ett, lost, bad>>
  \/ (bad \/ ett = -1) /\ db' = <<>> /\ ett' = -2 /\ bad' = FALSE /\ lost' = Max2(lost, Sec(now))
  \/ (bad \/ ett = -1) /\ bad' = TRUE /\ UNCHANGED <<db, ett, lost>>
Close == open /\ open' = FALSE /\ UNCHANGED <<db, ett, lost, bad>>
Corrupt == ~open /\ bad' = TRUE /\ UNCHANGED <<db, ett, lost, open>>

\* The stated time claims nothing that was dropped (-2: not yet seen).
Claim(e) == e >= lost' /\ ett' = e
ReadOk(s, e) == open /\ ~bad /\ s = db /\ ett \in {e, -2} /\ UNCHANGED <<db, lost, bad, open>> /\ Claim(e)
\* A failed read starts the history over.
Restart(now) == db' = <<>> /\ ett' = -2 /\ lost' = Max2(lost, Latest(db)) /\ bad' = FALSE /\ open' = open
ReadFails(now) == open /\ (Restart(now) \/ (bad' = TRUE /\ UNCHANGED <<db, ett, lost, open>>))

\* One update: the function saw before and left after; the store then holds s.
\* (fault: reading it may have failed).
Seen(before, now, ttl, fault) == IF bad THEN before = <<>> ELSE before \in Fresh(db, now, ttl) \/ (fault /\ before = <<>>)
Update(before, after, s, e, now, ttl, max, fault) ==
  /\ open /\ open' = open /\ bad' = FALSE
  /\ Seen(before, now, ttl, fault)
  /\ s \in Pruned(after, max) /\ db' = s
  /\ lost' = Max2(lost, Max2(Gone(db, s), Gone(after, s)))
  /\ Claim(e)
\* A failed update: nothing, everything (e = -2: not looked at), or an unreadable file.
UpdateCut(before, after, now, ttl, max, fault) ==
  /\ open /\ open' = open
  /\ \/ bad' = TRUE /\ UNCHANGED <<db, ett, lost>>
     \/ UNCHANGED <<db, ett, lost, bad>>
     \/ bad' = FALSE /\ db' = <<>> /\ ett' = -2 /\ lost' = Max2(lost, Latest(db))
     \/ /\ after # <<>> /\ bad' = FALSE /\ ett' = -2
        /\ Seen(before, now, ttl, fault)
        /\ db' \in Pruned(after, max)
        /\ lost' = Max2(lost, Max2(Gone(db, db'), Gone(after, db')))

\* Run r leaves its entry: once, at the end, and no other run's entry is touched.
Others(s, r) == SelectSeq(s, LAMBDA e : e.r # r)
Committed(before, after, r, k) ==
  /\ after # <<>> /\ after[Len(after)].r = r /\ after[Len(after)].k = k
  /\ Others(after, r) = Others(before, r)
  /\ Len(after) = Len(Others(after, r)) + 1
=============================================================================
