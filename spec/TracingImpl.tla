---------------------------- MODULE TracingImpl ----------------------------
(* Tracing as built: one chain of scopes per thread held together by the       *)
(* pointer each span keeps to the one before it, and a table telling which     *)
(* recorder counts for the process or for a thread.  A recorder that is        *)
(* destroyed takes itself out of the table only when its destructor runs.      *)
(* What callers see is fed to the monitor of Tracing.                          *)
EXTENDS Tracing
CONSTANTS Threads, Recs, MaxOps, Local, Bug

VARIABLES top, prev, info, glob, dying, tl, cnt, pool, nid, pc, op, found, left, ms
vars == <<top, prev, info, glob, dying, tl, cnt, pool, nid, pc, op, found, left, ms>>

\* Spans are numbered by their identifiers; 0 is no span (or a root).
Nobody == "none"
Main == 9
All == IF Local THEN Threads ELSE Threads \cup {Main}
Idle == [op |-> "idle", uid |-> 0, ref |-> 0, r |-> ""]

Init == /\ top = [t \in All |-> 0]
        /\ prev = <<>> /\ info = <<>>
        /\ glob = Nobody /\ dying = FALSE
        /\ tl = [t \in All |-> Nobody] /\ cnt = [t \in All |-> 0]
        /\ pool = {} /\ nid = 1
        /\ pc = [t \in All |-> "idle"]
        /\ op = [t \in All |-> Idle]
        /\ found = [t \in All |-> Nobody]
        /\ left = MaxOps
        /\ ms = {[New EXCEPT !.recs = Recs]}

Feed(e) == ms' = UNION {Steps(m, e) : m \in ms}

Ops(t) ==
  IF t = Main
    THEN IF glob = Nobody THEN {[op |-> "use", uid |-> 0, ref |-> 0, r |-> r] : r \in Recs}
         ELSE {[op |-> "unuse", uid |-> 0, ref |-> 0, r |-> glob]}
    ELSE {[op |-> k, uid |-> nid, ref |-> x, r |-> ""] : k \in {"foo", "open", "make"}, x \in pool \cup {0}}
         \cup (IF top[t] # 0 THEN {[op |-> "shut", uid |-> info[top[t]].uid, ref |-> 0, r |-> ""]} ELSE {})
         \cup {[op |-> "drop", uid |-> u, ref |-> 0, r |-> ""] : u \in pool}
         \cup (IF ~Local THEN {}
               ELSE {[op |-> "enter", uid |-> 0, ref |-> 0, r |-> r] :
                       r \in IF tl[t] = Nobody THEN Recs ELSE {tl[t]}}
                    \cup (IF cnt[t] > 0 THEN {[op |-> "leave", uid |-> 0, ref |-> 0, r |-> ""]} ELSE {}))

Call(t) ==
  /\ pc[t] = "idle" /\ left > 0
  /\ \E o \in Ops(t) :
       \* A scoped reference names a span somebody still keeps.
       /\ op' = [op EXCEPT ![t] = o]
       /\ pool' = IF o.op = "drop" THEN pool \ {o.uid} ELSE pool
       /\ nid' = IF o.op \in {"foo", "open", "make"} THEN nid + 1 ELSE nid
       /\ Feed([e |-> "call", t |-> t, op |-> o.op, uid |-> o.uid, ref |-> o.ref, r |-> o.r])
  /\ left' = left - 1
  /\ pc' = [pc EXCEPT ![t] = "find"]
  /\ UNCHANGED <<top, prev, info, glob, dying, tl, cnt, found>>

\* The recorder in force, looked up when there is no span to go by.
InForce(t) == IF Local THEN tl[t] ELSE glob
Top(t) == IF Bug = "shared" THEN (CHOOSE x \in {top[u] : u \in Threads} : \A u \in Threads : top[u] <= x)
          ELSE top[t]
Find(t) ==
  /\ pc[t] = "find"
  /\ op[t].op \in {"foo", "open", "make"}
  /\ found' = [found EXCEPT ![t] =
       IF op[t].ref # 0 \/ Top(t) # 0 THEN Nobody
       ELSE IF InForce(t) = Nobody \/ (~Local /\ dying) THEN "D" ELSE InForce(t)]
  /\ pc' = [pc EXCEPT ![t] = "act"]
  /\ UNCHANGED <<top, prev, info, glob, dying, tl, cnt, pool, nid, op, left, ms>>

\* Where the call lands.
Place(t) == IF op[t].ref # 0 THEN [r |-> info[op[t].ref].r, id |-> op[t].ref]
            ELSE IF found[t] = Nobody THEN LET x == Top(t) IN [r |-> info[x].r, id |-> x]
            ELSE [r |-> found[t], id |-> 0]

Ret(t, got) == Feed([e |-> "ret", t |-> t, op |-> op[t].op, uid |-> op[t].uid, got |-> got, r |-> "", id |-> 0])

Done(t) == pc' = [pc EXCEPT ![t] = "idle"] /\ op' = [op EXCEPT ![t] = Idle]
           /\ found' = [found EXCEPT ![t] = Nobody]

Emit(t) ==
  LET o == op[t] w == Place(t) IN
  /\ pc[t] = "act"
  /\ Done(t)
  /\ UNCHANGED <<glob, dying, tl, cnt, left, nid>>
  /\ IF o.op = "foo"
       THEN /\ Ret(t, <<[r |-> w.r, k |-> "foo", p |-> w.id, id |-> -1]>>)
            /\ UNCHANGED <<top, prev, info, pool>>
       ELSE /\ Ret(t, <<[r |-> w.r, k |-> "span", p |-> w.id, id |-> o.uid]>>)
            /\ info' = Put(info, o.uid, [r |-> w.r, uid |-> o.uid, par |-> w.id])
            /\ IF o.op = "open"
                 THEN /\ prev' = Put(prev, o.uid, top[t])
                      /\ top' = [top EXCEPT ![t] = o.uid] /\ pool' = pool
                 ELSE prev' = prev /\ top' = top /\ pool' = pool \cup {o.uid}

Shut(t) ==
  LET o == op[t] x == top[t] IN
  /\ pc[t] = "find" /\ o.op \in {"shut", "drop"}
  \* Only the recorder of last resort writes text here.
  /\ Ret(t, IF info[o.uid].r = "D" THEN <<[r |-> "D", id |-> o.uid]>> ELSE <<>>)
  /\ top' = IF o.op = "drop" THEN top
            ELSE [top EXCEPT ![t] = IF Bug = "parent" THEN info[x].par
                                    ELSE IF Bug = "root" THEN 0 ELSE prev[x]]
  /\ Done(t)
  /\ UNCHANGED <<prev, info, glob, dying, tl, cnt, pool, nid, left>>

Scope(t) ==
  LET o == op[t] IN
  /\ pc[t] = "find" /\ o.op \in {"enter", "leave"}
  /\ Ret(t, <<>>)
  /\ cnt' = [cnt EXCEPT ![t] = IF o.op = "enter" THEN @ + 1 ELSE @ - 1]
  /\ tl' = [tl EXCEPT ![t] = IF o.op = "enter" THEN o.r
                             ELSE IF cnt'[t] = 0 \/ Bug = "count" THEN Nobody ELSE @]
  /\ Done(t)
  /\ UNCHANGED <<top, prev, info, glob, dying, pool, nid, left>>

\* The recorder given up: nobody may take hold of it from the moment the last
\* owner let go, though the table names it until the destructor gets there.
LetGo == /\ ~Local /\ pc[Main] = "find" /\ op[Main].op = "unuse" /\ ~dying
         /\ dying' = (Bug # "sticky")
         /\ pc' = [pc EXCEPT ![Main] = "act"]
         /\ UNCHANGED <<top, prev, info, glob, tl, cnt, pool, nid, op, found, left, ms>>
Switch ==
  /\ ~Local
  /\ \/ /\ pc[Main] = "find" /\ op[Main].op = "use"
        /\ glob' = op[Main].r
     \/ /\ pc[Main] = "act"
        /\ glob' = IF Bug = "sticky" THEN glob ELSE Nobody
  /\ dying' = FALSE
  /\ Ret(Main, <<>>)
  /\ Done(Main)
  /\ UNCHANGED <<top, prev, info, tl, cnt, pool, nid, left>>

Next == \/ \E t \in All : Call(t) \/ (t # Main /\ (Find(t) \/ Emit(t) \/ Shut(t) \/ Scope(t)))
        \/ LetGo \/ Switch
Spec == Init /\ [][Next]_vars

Legal == ms # {}
\* The chain of a thread is what its stack should be.
RECURSIVE Chain(_)
Chain(x) == IF x = 0 THEN <<>> ELSE Append(Chain(prev[x]), [r |-> info[x].r, id |-> x])
Exact == \A m \in ms : \A t \in Threads : pc[t] = "idle" => Stack(m, t) = Chain(top[t])
=============================================================================
