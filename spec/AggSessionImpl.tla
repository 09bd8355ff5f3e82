--------------------------- MODULE AggSessionImpl ---------------------------
(* The aggregation service as built, for one session: every stretch of code   *)
(* between two lock operations or protocol calls is one step.  What is seen   *)
(* from outside is judged by AggSession.                                      *)
EXTENDS AggSession
CONSTANTS Threads, MaxOps, Min, Waiters, Bug

Toks == {"t1", "t2"}
VARIABLES alive, toks, active, waits, uploads, pstate, pcl, pincl, nc, pc, op, loc, left, s, ok
vars == <<alive, toks, active, waits, uploads, pstate, pcl, pincl, nc, pc, op, loc, left, s, ok>>

CT(i) == <<"c1", "c2", "c3">>[i]
UP(i) == <<"u1", "u2", "u3">>[i]
DT(i) == <<"d1", "d2", "d3">>[i]

EvCall(t, o) == [e |-> "call", t |-> t, op |-> o.op, id |-> IF o.op = "up" THEN "" ELSE "s1", key |-> o.key,
                 res |-> o.res, n |-> o.n, data |-> o.data]
NoC == Counts([cl |-> <<>>, incl |-> {}])
EvRet(t, r) == [e |-> "ret", t |-> t, r |-> r, id |-> "", toks |-> <<>>, ct |-> "", res |-> "", st |-> "",
                counts |-> NoC, has |-> FALSE, items |-> <<>>]
P(t, k, c, d, r) == [e |-> "p", t |-> t, k |-> k, p |-> "p1", c |-> c, data |-> d, r |-> r, code |-> 3]

\* The session exists and has handed out its tokens.
S0 == [New EXCEPT !.ses = ("s1" :> [min |-> Min, p |-> "p1", st |-> "open", enders |-> {}, done |-> "",
                                    lost |-> FALSE, toks |-> [k \in Toks |-> "free"], cl |-> <<>>, incl |-> {}])]

Init == /\ alive = TRUE /\ toks = Toks /\ active = <<>> /\ waits = {} /\ uploads = <<>>
        /\ pstate = "started" /\ pcl = <<>> /\ pincl = {} /\ nc = 0
        /\ pc = [t \in Threads |-> "idle"]
        /\ op = [t \in Threads |-> [op |-> "", key |-> "", res |-> "", n |-> 0, data |-> ""]]
        /\ loc = [t \in Threads |-> [c |-> -1, res |-> "", st |-> "", has |-> FALSE]]
        /\ left = MaxOps /\ s = S0 /\ ok = TRUE

Judge(x, e) == LET n == Steps(x, e) IN IF n = {} THEN <<x, FALSE>> ELSE <<CHOOSE y \in n : TRUE, TRUE>>
Emit(e) == LET j == Judge(s, e) IN s' = j[1] /\ ok' = j[2]
RECURSIVE JudgeAll(_, _)
JudgeAll(x, es) == IF es = <<>> THEN <<x, TRUE>>
                   ELSE LET j == Judge(x, Head(es)) IN IF j[2] THEN JudgeAll(j[1], Tail(es)) ELSE j
EmitAll(es) == LET j == JudgeAll(s, es) IN s' = j[1] /\ ok' = j[2]

C0 == [op |-> "", key |-> "", res |-> "", n |-> 0, data |-> ""]
Ops == {[C0 EXCEPT !.op = "start", !.key = k] : k \in Toks}
  \cup {[C0 EXCEPT !.op = "up", !.res = UP(i), !.data = DT(i)] : i \in 1..nc}
  \cup {[C0 EXCEPT !.op = "submit", !.key = CT(i), !.res = UP(i)] : i \in 1..nc}
  \cup {[C0 EXCEPT !.op = "submit", !.key = CT(i), !.res = "u9"] : i \in 1..nc}
  \cup {[C0 EXCEPT !.op = "drop", !.key = CT(i), !.n = 3] : i \in 1..nc}
  \cup {[C0 EXCEPT !.op = "complete"], [C0 EXCEPT !.op = "abort"]}

Stat(st) == [st |-> st, counts |-> Counts([cl |-> pcl, incl |-> pincl])]
RetSt(t, st) == [EvRet(t, "ok") EXCEPT !.st = st, !.counts = Stat(st).counts]

Go(t, at) == pc' = [pc EXCEPT ![t] = at]
Done(t) == Go(t, "idle")
Keep1 == UNCHANGED <<toks, active, waits, uploads>>
KeepP == UNCHANGED <<pstate, pcl, pincl>>

Begin(t) == /\ pc[t] = "idle" /\ t \notin Waiters /\ left > 0 /\ left' = left - 1
            /\ \E o \in Ops : /\ op' = [op EXCEPT ![t] = o]
                              /\ Emit(EvCall(t, o))
                              /\ Go(t, o.op)
            /\ loc' = [loc EXCEPT ![t] = [c |-> -1, res |-> "", st |-> "", has |-> FALSE]]
            /\ Keep1 /\ KeepP /\ UNCHANGED <<alive, nc>>

\* ---- a client starts
Start1(t) == /\ pc[t] = "start"
             /\ IF ~alive THEN Emit(EvRet(t, "404")) /\ Done(t) /\ UNCHANGED toks
                ELSE IF op[t].key \notin toks THEN Emit(EvRet(t, "401")) /\ Done(t) /\ UNCHANGED toks
                ELSE /\ toks' = IF Bug = "reuse" THEN toks ELSE toks \ {op[t].key}
                     /\ Go(t, "start2") /\ UNCHANGED <<s, ok>>
             /\ KeepP /\ UNCHANGED <<alive, active, waits, uploads, nc, op, loc, left>>
Start2(t) == /\ pc[t] = "start2"
             /\ IF pstate # "started" THEN Emit(EvRet(t, "400")) /\ Done(t) /\ UNCHANGED <<pcl, loc>>
                ELSE LET c == Cardinality(DOMAIN pcl) IN
                     /\ pcl' = Put(pcl, c, [st |-> "pending"])
                     /\ loc' = [loc EXCEPT ![t].c = c]
                     /\ Emit(P(t, "add", c, "", "")) /\ Go(t, "start3")
             /\ Keep1 /\ UNCHANGED <<alive, pstate, pincl, nc, op, left>>
Start3(t) == /\ pc[t] = "start3"
             /\ IF alive \/ Bug = "late"
                  THEN /\ nc' = nc + 1
                       /\ uploads' = Put(uploads, UP(nc'), "none")
                       /\ active' = Put(active, CT(nc'), [c |-> loc[t].c, res |-> UP(nc')])
                       /\ Emit([EvRet(t, "ok") EXCEPT !.ct = CT(nc'), !.res = UP(nc')])
                  ELSE Emit(EvRet(t, "404")) /\ UNCHANGED <<nc, uploads, active>>
             /\ Done(t) /\ KeepP /\ UNCHANGED <<alive, toks, waits, op, loc, left>>

\* ---- uploads
Up(t) == /\ pc[t] = "up"
         /\ IF op[t].res \in DOMAIN uploads /\ uploads[op[t].res] = "none"
              THEN uploads' = [uploads EXCEPT ![op[t].res] = op[t].data] /\ Emit(EvRet(t, "ok"))
              ELSE UNCHANGED uploads /\ Emit(EvRet(t, "401"))
         /\ Done(t) /\ KeepP /\ UNCHANGED <<alive, toks, active, waits, nc, op, loc, left>>

\* ---- a client submits
Submit1(t) == LET o == op[t] IN
  /\ pc[t] = "submit"
  /\ IF ~alive THEN Emit(EvRet(t, "404")) /\ Done(t) /\ UNCHANGED <<active, loc>>
     ELSE IF o.key \notin DOMAIN active THEN Emit(EvRet(t, "401")) /\ Done(t) /\ UNCHANGED <<active, loc>>
     ELSE IF active[o.key].res # o.res
       THEN /\ Emit(EvRet(t, "400")) /\ Done(t) /\ UNCHANGED loc
            /\ active' = IF Bug = "forget" THEN Drop(active, o.key) ELSE active
     ELSE /\ loc' = [loc EXCEPT ![t].c = active[o.key].c, ![t].res = o.res]
          /\ active' = IF Bug = "again" THEN active ELSE Drop(active, o.key)
          /\ Go(t, "submit2") /\ UNCHANGED <<s, ok>>
  /\ KeepP /\ UNCHANGED <<alive, toks, waits, uploads, nc, op, left>>
\* A client the protocol has closed meanwhile; its upload goes.
Submit2(t) == LET u == loc[t].res IN
  /\ pc[t] = "submit2"
  /\ uploads' = Drop(uploads, u)
  /\ IF pcl[loc[t].c].st # "pending"
       THEN Emit(EvRet(t, "500")) /\ Done(t) /\ UNCHANGED <<pcl, loc>>
     ELSE IF u \notin DOMAIN uploads \/ uploads[u] = "none"
       THEN /\ pcl' = [pcl EXCEPT ![loc[t].c].st = "gone"]
            /\ EmitAll(<<P(t, "close", loc[t].c, "", ""), EvRet(t, "400")>>) /\ Done(t) /\ UNCHANGED loc
     ELSE loc' = [loc EXCEPT ![t].st = uploads[u]] /\ Go(t, "submit3") /\ UNCHANGED <<s, ok, pcl>>
  /\ UNCHANGED <<alive, toks, active, waits, pstate, pincl, nc, op, left>>
Submit3(t) == LET c == loc[t].c d == loc[t].st IN
  /\ pc[t] = "submit3"
  /\ IF pstate # "started" \/ pcl[c].st # "pending"
       THEN Emit(EvRet(t, "500")) /\ Done(t) /\ UNCHANGED <<pcl, pincl>>
       ELSE /\ pcl' = [pcl EXCEPT ![c].st = "done"]
            /\ pincl' = pincl \cup {d}
            /\ Emit(P(t, "receive", c, d, "ok")) /\ Go(t, "submit4")
  /\ Keep1 /\ UNCHANGED <<alive, pstate, nc, op, loc, left>>
\* Waits that are satisfied now are over.
RECURSIVE SetToSeq0(_)
SetToSeq0(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o SetToSeq0(S \ {x})
Release(ws, st) == [i \in 1..Cardinality(ws) |-> RetSt(SetToSeq0(ws)[i].t, st)]
Submit4(t) ==
  LET over == {w \in waits : w.n <= Cardinality(pincl)} IN
  /\ pc[t] = "submit4"
  /\ waits' = waits \ over
  /\ pc' = [u \in Threads |-> IF u = t \/ u \in {w.t : w \in over} THEN "idle" ELSE pc[u]]
  /\ EmitAll(Release(over, IF alive THEN "PENDING" ELSE loc[CHOOSE u \in Threads : pc[u] \in {"end3"} \/ TRUE].st)
               \o <<EvRet(t, "ok")>>)
  /\ KeepP /\ UNCHANGED <<alive, toks, active, uploads, nc, op, loc, left>>

DropC(t) == LET o == op[t] IN
  /\ pc[t] = "drop"
  /\ IF ~alive THEN Emit(EvRet(t, "404")) /\ UNCHANGED <<active, uploads, pcl>>
     ELSE IF o.key \notin DOMAIN active THEN Emit(EvRet(t, "401")) /\ UNCHANGED <<active, uploads, pcl>>
     ELSE LET c == active[o.key].c IN
          /\ active' = Drop(active, o.key)
          /\ uploads' = Drop(uploads, active[o.key].res)
          /\ IF pcl[c].st = "pending"
               THEN /\ pcl' = [pcl EXCEPT ![c].st = "gone"]
                    /\ EmitAll(<<P(t, "close", c, "", ""), EvRet(t, "ok")>>)
               ELSE UNCHANGED pcl /\ Emit(EvRet(t, "ok"))
  /\ Done(t) /\ UNCHANGED <<alive, toks, waits, pstate, pincl, nc, op, loc, left>>

\* ---- the session ends
End1(t) == /\ pc[t] \in {"complete", "abort"}
           /\ IF ~alive THEN Emit(EvRet(t, "error")) /\ Done(t) /\ UNCHANGED alive
              ELSE alive' = FALSE /\ Go(t, "end2") /\ UNCHANGED <<s, ok>>
           /\ Keep1 /\ KeepP /\ UNCHANGED <<nc, op, loc, left>>
End2(t) ==
  LET enough == Cardinality(pincl) >= Min \/ Bug = "early"
      fin == op[t].op = "complete" /\ enough
  IN /\ pc[t] = "end2"
     /\ pstate' = IF fin THEN "completed" ELSE "aborted"
     /\ pcl' = Stop(pcl)
     /\ loc' = [u \in Threads |-> [loc[u] EXCEPT !.st =
                  IF u # t THEN @ ELSE IF fin THEN "COMPLETED" ELSE IF op[t].op = "complete" THEN "FAILED" ELSE "ABORTED",
                  !.has = IF u = t THEN fin ELSE @]]
     /\ Emit(P(t, IF fin THEN "complete" ELSE "abort", -1, "", ""))
     /\ Go(t, "end3") /\ Keep1 /\ UNCHANGED <<alive, pincl, nc, op, left>>
\* Cleaning up: tokens, uploads of clients still active, waits.
End3(t) ==
  /\ pc[t] = "end3"
  /\ toks' = {}
  /\ uploads' = [u \in DOMAIN uploads \ {active[k].res : k \in DOMAIN active} |-> uploads[u]]
  /\ active' = <<>>
  /\ waits' = IF Bug = "strand" THEN waits ELSE {}
  /\ pc' = [u \in Threads |-> IF u = t \/ (u \in {w.t : w \in waits} /\ Bug # "strand") THEN "idle" ELSE pc[u]]
  /\ EmitAll((IF Bug = "strand" THEN <<>> ELSE Release(waits, loc[t].st))
       \o <<[RetSt(t, loc[t].st) EXCEPT !.has = loc[t].has,
               !.items = IF loc[t].has THEN SetToSeq0(pincl) ELSE <<>>]>>)
  /\ KeepP /\ UNCHANGED <<alive, nc, op, loc, left>>

\* ---- waiting
Wait0(t) == /\ pc[t] = "idle" /\ t \in Waiters /\ left > 0 /\ left' = left - 1
            /\ \E n \in 1..2 :
                 LET o == [C0 EXCEPT !.op = "wait", !.n = n] IN
                 op' = [op EXCEPT ![t] = o] /\ Emit(EvCall(t, o))
            /\ Go(t, "wait") /\ Keep1 /\ KeepP /\ UNCHANGED <<alive, nc, loc>>
Wait1(t) == /\ pc[t] = "wait"
            /\ IF ~alive THEN Emit(EvRet(t, "error")) /\ Done(t) /\ UNCHANGED waits
               ELSE IF Cardinality(pincl) >= op[t].n THEN Emit(RetSt(t, "PENDING")) /\ Done(t) /\ UNCHANGED waits
               ELSE waits' = waits \cup {[t |-> t, n |-> op[t].n]} /\ Go(t, "waiting") /\ UNCHANGED <<s, ok>>
            /\ KeepP /\ UNCHANGED <<alive, toks, active, uploads, nc, op, loc, left>>

Next == ok /\ \E t \in Threads :
          \/ Begin(t) \/ Start1(t) \/ Start2(t) \/ Start3(t) \/ Up(t)
          \/ Submit1(t) \/ Submit2(t) \/ Submit3(t) \/ Submit4(t) \/ DropC(t)
          \/ End1(t) \/ End2(t) \/ End3(t) \/ Wait0(t) \/ Wait1(t)
Spec == Init /\ [][Next]_vars

Legal == ok
\* Whoever waits when nothing is going on has a reason to.
Calm == (\A t \in Threads : pc[t] \in {"idle", "waiting"}) => Quiet(s)
\* Uploads belong to active clients of the open session, or to a call in progress.
NoLeftover == (\A t \in Threads : pc[t] \in {"idle", "waiting"}) =>
                DOMAIN uploads = {active[k].res : k \in DOMAIN active}
=============================================================================
