------------------------------ MODULE Tracing ------------------------------
(* Which span a traced event or a new span belongs to.  Every thread has a    *)
(* stack of open scopes; without one the recorder in force counts: that of    *)
(* the thread, or the global one, or the one of last resort ("D").            *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

Put(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
Drop(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]
Get(f, x, d) == IF x \in DOMAIN f THEN f[x] ELSE d

\* text: recorders that write text (and so tell of ends); span: what spans and
\* references stand for; stack, loc: of each thread; glob: the global recorders
\* possible now; now: for calls under way, those in force at some time meanwhile;
\* ids: identifiers given out; kept: how many spans and references are kept.
New == [text |-> {"D"}, recs |-> {}, span |-> <<>>, stack |-> <<>>, loc |-> <<>>, glob |-> {"D"},
        now |-> <<>>, ids |-> {}, kept |-> <<>>]

Stack(s, t) == Get(s.stack, t, <<>>)
\* Where thread t's call lands if it names no span.
Here(s, t) == LET q == Stack(s, t) IN
              IF q # <<>> THEN {q[Len(q)]}
              ELSE {[r |-> r, id |-> 0] : r \in IF t \in DOMAIN s.loc THEN {s.loc[t].r} ELSE s.now[t].g}

Kinds == {"foo", "bar", "error"}

\* Exactly what the operation should be told as: one record under the right span.
Landed(s, t, o, got, kind) ==
  /\ Len(got) = 1
  /\ got[1].k = kind
  /\ [r |-> got[1].r, id |-> got[1].p] \in (IF o.ref # 0 THEN {s.span[o.ref]} ELSE Here(s, t))

\* The end of a span shows in text, once.
Ended(s, sp, got) ==
  IF sp.r \in s.text THEN Len(got) = 1 /\ got[1].r = sp.r /\ got[1].id = sp.id ELSE got = <<>>

Steps(s, e) ==
  CASE e.e = "recorder" ->
         {[s EXCEPT !.text = IF e.text THEN @ \cup {e.r} ELSE @, !.recs = @ \cup {e.r}]}
    [] e.e = "call" ->
         LET c == [op |-> e.op, uid |-> e.uid, ref |-> e.ref, r |-> e.r, g |-> s.glob]
             add == IF e.op = "use" THEN {e.r} ELSE IF e.op = "unuse" THEN {"D"} ELSE {}
         IN {[s EXCEPT !.glob = @ \cup add,
                       !.now = [t \in DOMAIN @ \cup {e.t} |->
                                  IF t = e.t THEN [c EXCEPT !.g = @ \cup add]
                                  ELSE [@[t] EXCEPT !.g = @ \cup add]]]}
    [] e.e = "ret" ->
         LET t == e.t
             o == s.now[t]
             d == [s EXCEPT !.now = Drop(@, t)]
             n == Get(s.kept, e.uid, 0)
         IN (CASE e.op \in Kinds -> IF Landed(s, t, o, e.got, e.op) THEN {d} ELSE {}
              [] e.op \in {"open", "make"} ->
                   IF Landed(s, t, o, e.got, "span") /\ e.got[1].id > 0 /\ e.got[1].id \notin s.ids
                     THEN LET sp == [r |-> e.got[1].r, id |-> e.got[1].id] IN
                          {[d EXCEPT !.span = Put(@, e.uid, sp), !.ids = @ \cup {sp.id},
                                     !.stack = IF e.op = "open" THEN Put(@, t, Append(Stack(s, t), sp)) ELSE @,
                                     !.kept = IF e.op = "make" THEN Put(@, e.uid, 1) ELSE @]}
                     ELSE {}
              [] e.op = "shut" ->
                   IF Ended(s, s.span[e.uid], e.got)
                     THEN {[d EXCEPT !.stack = Put(@, t, SubSeq(Stack(s, t), 1, Len(Stack(s, t)) - 1))]}
                     ELSE {}
              [] e.op = "drop" ->
                   IF Ended(s, s.span[e.uid], e.got) THEN {[d EXCEPT !.kept = Put(@, e.uid, n - 1)]} ELSE {}
              [] e.op = "ref" -> {[d EXCEPT !.kept = Put(@, e.uid, n + 1)]}
              [] e.op = "unref" -> {[d EXCEPT !.kept = Put(@, e.uid, n - 1)]}
              [] e.op = "top" ->
                   IF [r |-> e.r, id |-> e.id] \in Here(s, t)
                     THEN {[d EXCEPT !.span = Put(@, e.uid, [r |-> e.r, id |-> e.id]), !.kept = Put(@, e.uid, 1)]}
                     ELSE {}
              [] e.op = "use" -> {[d EXCEPT !.glob = {o.r}]}
              [] e.op = "unuse" -> {[d EXCEPT !.glob = {"D"}]}
              [] e.op = "enter" ->
                   {[d EXCEPT !.loc = Put(@, t, [r |-> o.r, n |-> 1 + (IF t \in DOMAIN @ THEN @[t].n ELSE 0)])]}
              [] e.op = "leave" ->
                   {[d EXCEPT !.loc = IF @[t].n = 1 THEN Drop(@, t) ELSE [@ EXCEPT ![t].n = @ - 1]]})
    \* Spans and references keep their recorder, nothing else does.
    [] e.e = "held" ->
         IF e.v = (\E u \in DOMAIN s.kept : s.kept[u] > 0 /\ s.span[u].r = e.r) THEN {s} ELSE {}
    \* Identifiers are not given out twice.
    [] e.e = "ids" ->
         LET v == {e.v[i] : i \in 1..Len(e.v)} IN
         IF Cardinality(v) = Len(e.v) /\ v \cap s.ids = {} THEN {[s EXCEPT !.ids = @ \cup v]} ELSE {}
    [] e.e = "end" -> {s}
=============================================================================
