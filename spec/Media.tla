------------------------------- MODULE Media -------------------------------
(* Uploads and downloads as their callers see them.  Every operation takes    *)
(* effect at one instant between its call and its return; the monitor keeps   *)
(* all states the observed calls and returns allow, and there must be one.    *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

None == "nothing"

\* up: name -> body, "nothing" while empty.   gone: names once registered.
\* dl: group -> (file -> content).             shut: groups once open.
Init0 == [up |-> <<>>, gone |-> {}, dl |-> <<>>, shut |-> {}]

Drop(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]
Put(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]

Ok(s, v) == [s |-> s, r |-> "ok", v |-> v]
No(s, r) == [s |-> s, r |-> r, v |-> ""]

\* The effect of an operation on the tables: o.op, o.n (upload or group), o.f
\* (file), o.b (content).
Do(s, o) ==
  CASE o.op = "up" ->
         IF o.n \in DOMAIN s.up /\ s.up[o.n] = None
           THEN Ok([s EXCEPT !.up[o.n] = o.b], "")
           ELSE No(s, "refused")
    [] o.op = "fin" ->
         IF o.n \in DOMAIN s.up
           THEN Ok([s EXCEPT !.up = Drop(@, o.n), !.gone = @ \cup {o.n}], s.up[o.n])
           ELSE No(s, "error")
    [] o.op = "add" ->
         IF o.n \in DOMAIN s.dl /\ o.f \notin DOMAIN s.dl[o.n]
           THEN Ok([s EXCEPT !.dl[o.n] = Put(@, o.f, o.b)], "")
           ELSE No(s, "error")
    [] o.op = "get" ->
         IF o.n \in DOMAIN s.dl /\ o.f \in DOMAIN s.dl[o.n]
           THEN Ok(s, s.dl[o.n][o.f])
           ELSE No(s, "404")
    [] o.op = "close" ->
         IF o.n \in DOMAIN s.dl
           THEN Ok([s EXCEPT !.dl = Drop(@, o.n), !.shut = @ \cup {o.n}], "")
           ELSE No(s, "error")

\* Names are given out at the return: nobody can use them earlier.
Late(o) == o.op \in {"reg", "open"}

Take(s, o, v) ==
  CASE o.op = "reg" /\ v \notin DOMAIN s.up /\ v \notin s.gone ->
         {[s EXCEPT !.up = Put(@, v, None)]}
    [] o.op = "open" /\ v \notin DOMAIN s.dl /\ v \notin s.shut ->
         {[s EXCEPT !.dl = Put(@, v, <<>>)]}
    [] OTHER -> {}

\* m = [s, p]; p[t] is the pending operation of t, with its result once in effect.
RECURSIVE Closure(_)
Closure(ms) ==
  LET next == UNION {{LET d == Do(m.s, m.p[t].o)
                      IN [s |-> d.s, p |-> [m.p EXCEPT ![t] =
                            [o |-> @.o, done |-> TRUE, r |-> d.r, v |-> d.v]]] :
                        t \in {u \in DOMAIN m.p : ~m.p[u].done /\ ~Late(m.p[u].o)}} :
                      m \in ms}
  IN IF next \subseteq ms THEN ms ELSE Closure(ms \cup next)

Start == {[s |-> Init0, p |-> <<>>]}

Called(ms, t, o) ==
  Closure({[s |-> m.s, p |-> Put(m.p, t, [o |-> o, done |-> FALSE, r |-> "", v |-> ""])] :
             m \in ms})

Refusals == {"400", "401", "403", "404", "409", "410"}
Fits(o, r, p) == \/ p.r = r
                 \/ p.r = "refused" /\ r \in Refusals

Returned(ms, t, r, v) ==
  LET fit == {m \in ms : t \in DOMAIN m.p /\ m.p[t].done /\ Fits(m.p[t].o, r, m.p[t])
                            /\ m.p[t].v = v}
      late == {m \in ms : t \in DOMAIN m.p /\ Late(m.p[t].o) /\ r = "ok"}
  IN Closure({[s |-> m.s, p |-> Drop(m.p, t)] : m \in fit}
       \cup UNION {{[s |-> s, p |-> Drop(m.p, t)] : s \in Take(m.s, m.p[t].o, v)} :
                     m \in late})
=============================================================================
