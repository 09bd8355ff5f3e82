----------------------------- MODULE FedSelect -----------------------------
(* Slice requests: each asks for the resource of every key, and either fails  *)
(* as a whole or yields an iterator that hands out the slices in key order,   *)
(* each in the request's scratch file.                                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Empty == [x \in {} |-> 0]
Range(f) == {f[x] : x \in DOMAIN f}
\* its: iterators [left: slices still to hand out, file, over: the file is gone];
\* cur: the request being made; files: scratch files that exist; sent, got: counted bytes
NoCur == [id |-> 0, tmpl |-> <<>>, served |-> "", keys |-> <<>>, good |-> TRUE, file |-> "", st |-> "", slices |-> <<>>]
New == [its |-> Empty, cur |-> NoCur, files |-> {}, sent |-> 0, got |-> 0, stop |-> FALSE]

RECURSIVE Subst(_, _, _)
Subst(t, served, key) ==
  IF t = <<>> THEN ""
  ELSE (CASE Head(t) = "{served}" -> served [] Head(t) = "{key}" -> ToString(key) [] OTHER -> Head(t))
       \o Subst(Tail(t), served, key)
Uris(c) == [i \in DOMAIN c.keys |-> Subst(c.tmpl, c.served, c.keys[i])]
Count(q, P(_)) == Cardinality({i \in DOMAIN q : P(q[i])})

CreateSteps(s, e) ==
  IF s.cur.id # 0 THEN {}
  ELSE {[s EXCEPT !.cur = [NoCur EXCEPT !.id = e.id, !.tmpl = e.tmpl, !.served = e.served, !.keys = e.keys, !.good = e.good]]}
Usable(s) == s.cur.id # 0 /\ s.cur.good /\ s.cur.tmpl # <<>>
TempSteps(s, e) ==
  IF ~Usable(s) \/ s.cur.file # "" \/ s.cur.st = "nofile" THEN {}
  ELSE {IF e.ok THEN [s EXCEPT !.cur.file = e.file, !.files = @ \cup {e.file}] ELSE [s EXCEPT !.cur.st = "nofile"]}
\* Every key's resource is asked for, and nothing else.
FetchSteps(s, e) ==
  LET want == Uris(s.cur)
      asked == [i \in DOMAIN e.rs |-> e.rs[i].uri]
  IN IF Usable(s) /\ s.cur.st = "" /\ Len(e.rs) <= Len(want) /\ Range(asked) = Range(want)
     THEN LET fine == e.ok /\ \A i \in DOMAIN e.rs : e.rs[i].ok
              Body(u) == e.rs[CHOOSE i \in DOMAIN e.rs : e.rs[i].uri = u].h
          IN {[s EXCEPT !.cur.st = IF fine THEN "fetched" ELSE "failed", !.sent = @ + e.sent, !.got = @ + e.got,
                        !.cur.slices = IF fine THEN [i \in DOMAIN want |-> Body(want[i])] ELSE <<>>]}
     ELSE {}
\* A request without keys needs no transfer.
Fetched(s) == Usable(s) /\ (s.cur.st = "fetched" \/ (s.cur.st = "" /\ s.cur.keys = <<>>)) /\ s.cur.file # ""
SetOf(q) == {q[i] : i \in DOMAIN q}
MadeSteps(s, e) ==
  IF s.cur.id # e.id THEN {}
  ELSE IF e.st = "OK"
       THEN IF Fetched(s) /\ SetOf(e.files) = s.files
            THEN {[s EXCEPT !.cur = NoCur, !.its = (e.id :> [left |-> s.cur.slices, file |-> s.cur.file]) @@ s.its]} ELSE {}
       ELSE IF (~Fetched(s) \/ s.stop) /\ (~Usable(s) => e.st = "INVALID_ARGUMENT") /\ SetOf(e.files) = s.files \ {s.cur.file}
            THEN {[s EXCEPT !.cur = NoCur, !.files = @ \ {s.cur.file}]} ELSE {}
StatsSteps(s, e) == IF e.sent = s.sent /\ e.got = s.got THEN {s} ELSE {}
Gone(s, id) == [s EXCEPT !.files = @ \ {s.its[id].file}, !.its[id].left = <<>>]
After(n, e) == IF SetOf(e.files) = n.files THEN {n} ELSE {}
NextSteps(s, e) ==
  IF s.cur.id # 0 \/ e.id \notin DOMAIN s.its THEN {}
  ELSE LET it == s.its[e.id] IN
       CASE e.st = "OK" -> IF it.left # <<>> /\ e.file = it.file /\ e.h = Head(it.left)
                           THEN After([s EXCEPT !.its[e.id].left = Tail(@)], e) ELSE {}
         [] e.st = "OUT_OF_RANGE" -> IF it.left = <<>> THEN After(Gone(s, e.id), e) ELSE {}
         [] OTHER -> IF e.full /\ it.left # <<>> THEN After(s, e) ELSE {}
CloseSteps(s, e) == IF e.id \in DOMAIN s.its THEN After(Gone(s, e.id), e) ELSE {}
DropSteps(s, e) ==
  IF e.id \in DOMAIN s.its
  THEN LET n == Gone(s, e.id) IN After([n EXCEPT !.its = [i \in DOMAIN n.its \ {e.id} |-> n.its[i]]], e) ELSE {}

Steps(s, e) ==
  CASE e.e = "create" -> CreateSteps(s, e) [] e.e = "temp" -> TempSteps(s, e)   [] e.e = "fetch" -> FetchSteps(s, e)
    [] e.e = "made" -> MadeSteps(s, e)     [] e.e = "stats" -> StatsSteps(s, e) [] e.e = "next" -> NextSteps(s, e)
    [] e.e = "close" -> CloseSteps(s, e)   [] e.e = "drop" -> DropSteps(s, e)
    [] e.e = "stop" -> {[s EXCEPT !.stop = TRUE]} [] e.e = "go" -> {[s EXCEPT !.stop = FALSE]}
    [] OTHER -> {}
=============================================================================
