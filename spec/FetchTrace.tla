----------------------------- MODULE FetchTrace -----------------------------
EXTENDS TraceLib, Fetch

VARIABLES l, cache, acc, cur, seen, got
tvars == <<l, cache, acc, cur, seen, got>>
ev == Trace[l]
Is(e) == l <= Len(Trace) /\ ev.e = e /\ l' = l + 1
E == [x \in {} |-> 0]
Set(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Idle == [on |-> FALSE]

TInit == l = 1 /\ cache = E /\ acc = [r |-> 0, s |-> 0] /\ cur = Idle /\ seen = E /\ got = E

Begin == /\ Is("fetch") /\ ~cur.on
         /\ cur' = [on |-> TRUE, rs |-> ev.rs, cancelled |-> FALSE, whole |-> TRUE, batch |-> FALSE]
         /\ seen' = E /\ got' = E /\ UNCHANGED <<cache, acc>>
Remote(i) == cur.rs[i].k = "uri"
\* The cache is asked for identifiers of this list; what it holds is what was stored.
Get == /\ Is("get") /\ cur.on
       /\ \E i \in 1..Len(cur.rs) : Remote(i) /\ cur.rs[i].id = ev.id /\ ev.id # ""
       /\ got' = (IF ev.hit THEN Set(got, ev.id, IF ev.id \in DOMAIN got THEN got[ev.id] \cup {ev.text} ELSE {ev.text}) ELSE got)
       /\ (ev.hit => ev.id \in DOMAIN cache /\ cache[ev.id] = ev.text)
       /\ UNCHANGED <<cache, acc, cur, seen>>
\* A request is a plain fetch of a resource of the list, each at most once.
Request == /\ Is("request") /\ cur.on /\ ev.method = "GET" /\ ev.plain
           /\ \E i \in 1..Len(cur.rs) : Remote(i) /\ cur.rs[i].uri = ev.uri
           /\ ev.uri \notin DOMAIN seen
           /\ seen' = Set(seen, ev.uri, ev.x)
           /\ acc' = [r |-> acc.r + ev.x.recv, s |-> acc.s + ev.x.sent]
           /\ cur' = [cur EXCEPT !.cancelled = @ \/ ev.x.blocked]
           /\ UNCHANGED <<cache, got>>
Put == /\ Is("put") /\ cur.on
       /\ \E i \in 1..Len(cur.rs) :
            /\ Remote(i) /\ cur.rs[i].id = ev.id /\ ev.id # "" /\ cur.rs[i].age = ev.age
            /\ cur.rs[i].uri \in DOMAIN seen
            /\ Succeeds(seen[cur.rs[i].uri]) /\ seen[cur.rs[i].uri].raw = ev.raw
            /\ ev.gz = seen[cur.rs[i].uri].gz
            /\ cache' = (IF ev.stored
                         THEN (IF seen[cur.rs[i].uri].readable THEN Set(cache, ev.id, seen[cur.rs[i].uri].text)
                               ELSE [k \in DOMAIN cache \ {ev.id} |-> cache[k]])
                         ELSE cache)
       /\ UNCHANGED <<acc, cur, seen, got>>
\* Something outside took an entry away or spoilt it.
Evict == Is("evict") /\ cache' = [k \in DOMAIN cache \ {ev.id} |-> cache[k]] /\ UNCHANGED <<acc, cur, seen, got>>

Right(r, o) ==
  IF r.k = "inline" THEN (IF r.readable THEN o.ret = "OK" /\ o.text = r.text ELSE o.ret # "OK")
  ELSE \/ r.id # "" /\ r.id \in DOMAIN got /\ o.ret = "OK" /\ o.text \in got[r.id]
       \/ /\ r.uri \in DOMAIN seen
          /\ LET x == seen[r.uri] IN
             IF Succeeds(x) /\ x.readable THEN o.ret = "OK" /\ o.text = x.text
             ELSE o.ret # "OK" /\ (~Succeeds(x) => ErrorIs(x, o.ret))
Return ==
  /\ Is("fetched") /\ cur.on /\ ev.recv = acc.r /\ ev.sent = acc.s
  /\ IF ev.ret = "OK"
     THEN /\ ~ev.failed /\ ~cur.cancelled
          /\ Len(ev.out) = Len(cur.rs)
          /\ \A i \in 1..Len(cur.rs) : Right(cur.rs[i], ev.out[i])
     ELSE \* as a whole: the joint call failed, was interrupted, or an address is not allowed
          \/ ev.failed \/ cur.cancelled \/ ev.asked
          \/ \E i \in 1..Len(cur.rs) : Remote(i) /\ ~cur.rs[i].https
  /\ cur' = Idle /\ UNCHANGED <<cache, acc, seen, got>>
\* A request with a body: what is read from it is what was given.
Upload == /\ Is("upload") /\ ~cur.on /\ ev.ok
          /\ UNCHANGED <<cache, acc, cur, seen, got>>
Refuse == /\ Is("refuse") /\ ~cur.on /\ (ev.ret = "OK" <=> ev.allowed)
          /\ UNCHANGED <<cache, acc, cur, seen, got>>
Reset == Is("reset") /\ cache' = E /\ acc' = [r |-> 0, s |-> 0] /\ cur' = Idle /\ seen' = E /\ got' = E

TNext == Begin \/ Get \/ Request \/ Put \/ Evict \/ Return \/ Upload \/ Refuse \/ Reset
TSpec == TInit /\ [][TNext]_tvars
Constr == Track(l)
Post == Report
=============================================================================
