------------------------------- MODULE Cache -------------------------------
(* Observable behaviour of the file backed resource cache.                   *)
(* ent: what is stored, id -> [d: contents, m: metadata, sz, exp, acc].      *)
(* dirty: an operation was cut short by a crash or an I/O failure and the    *)
(* cache has not been re-opened since: then files may be left that it does   *)
(* not know, and entries may be lost, but nothing wrong may be served.       *)
EXTENDS Naturals, FiniteSets

VARIABLES ent, dirty, refused
cvars == <<ent, dirty, refused>>
CNone == [x \in {} |-> 0]
CInit == ent = CNone /\ dirty = FALSE /\ refused = FALSE

Restrict(f, S) == [x \in S |-> f[x]]
Without(f, S) == Restrict(f, DOMAIN f \ S)
With(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
RECURSIVE SumOf(_, _)
SumOf(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN f[x].sz + SumOf(f, S \ {x})
Total(f) == SumOf(f, DOMAIN f)

\* What may remain of f when room for need bytes is made at time now: first
\* the expired entries go, then the least recently used ones, no more than
\* needed (an implementation may also leave the last byte free).
Expired(f, now) == {S \in SUBSET {x \in DOMAIN f : f[x].exp <= now} :
                      \A x \in DOMAIN f : f[x].exp < now => x \in S}
Oldest(f, S) == \A x \in S, y \in DOMAIN f \ S : f[x].acc <= f[y].acc
Evicted(f, room) == {S \in SUBSET DOMAIN f :
   /\ Oldest(f, S) /\ Total(Without(f, S)) <= room
   /\ S # {} => /\ Total(f) > room
                /\ \E last \in S : /\ \A y \in S : f[y].acc <= f[last].acc
                                   /\ Total(Without(f, S \ {last})) >= room}
Cleaned(f, room, now) == UNION {LET g == Without(f, X) IN {Without(g, S) : S \in Evicted(g, room)} : X \in Expired(f, now)}

\* n files with b bytes are in the cache directory afterwards.
Listed(f, n, b, max) == b <= max /\ (~dirty' => n = Cardinality(DOMAIN f) /\ b = Total(f))

OpenOk(now, max, n, b) ==
  /\ dirty' = FALSE /\ refused' = FALSE
  /\ ent' \in Cleaned(ent, max, now) /\ Listed(ent', n, b, max)
\* After a fault the first opening may fail while it discards what it cannot read.
OpenFails == dirty /\ ~refused /\ refused' = TRUE /\ dirty' = TRUE /\ ent' = ent

Big(sz, max) == 2 * sz > max
PutOk(id, v, now, max, n, b) ==
  /\ ~Big(v.sz, max)
  /\ \E f \in {ent, Without(ent, {id})} : \E g \in Cleaned(f, max - v.sz, now) :
        ent' = With(g, id, v)
  /\ UNCHANGED <<dirty, refused>> /\ Listed(ent', n, b, max)
PutTooBig(sz, max, n, b) == Big(sz, max) /\ UNCHANGED cvars /\ (~dirty => Listed(ent', n, b, max))

Touch(id, now, age) == [ent EXCEPT ![id].acc = now, ![id].exp = IF age < 0 THEN @ ELSE now + age]
GetHit(id, d, m, now, age, n, b, max) ==
  /\ id \in DOMAIN ent /\ ent[id].d = d /\ ent[id].m = m
  /\ ent' = Touch(id, now, age) /\ UNCHANGED <<dirty, refused>> /\ Listed(ent', n, b, max)
GetMiss(id, now, n, b, max) ==
  /\ UNCHANGED <<dirty, refused>>
  /\ \/ id \notin DOMAIN ent /\ ent' = ent
     \/ id \in DOMAIN ent /\ ent[id].exp <= now /\ ent' \in {ent, Without(ent, {id})}
  /\ (~dirty => Listed(ent', n, b, max))

(* An operation that a crash or an I/O failure cuts short. *)
Some(f) == {Restrict(f, S) : S \in SUBSET DOMAIN f}
Cut(f) == ent' \in f /\ dirty' = TRUE /\ refused' = FALSE
OpenCut == Cut(Some(ent))
PutCut(id, v) == Cut(Some(ent) \cup {With(g, id, v) : g \in Some(Without(ent, {id}))})
GetCut(id, now, age) == Cut(Some(ent) \cup (IF id \in DOMAIN ent THEN Some(Touch(id, now, age)) ELSE {}))
\* While dirty, operations may fail until the cache is re-opened.
FailDirty(f) == dirty /\ ent' \in f /\ UNCHANGED <<dirty, refused>>
=============================================================================
