----------------------------- MODULE SchedImpl -----------------------------
(* The algorithm of ThreadPoolScheduler and WorkerImpl: a queue, an active   *)
(* count that the idle condition reads, and per worker a queue of steps and  *)
(* a running flag.  Each critical section is one action.  Checked to refine  *)
(* Sched and to finish all work (no lost hand-over between tasks).           *)
EXTENDS Sched, Sequences, TLC

CONSTANTS Pool, Submitters, Script, Nest, Waiter

VARIABLES todo, active, wq, wrun, ppc, cur, spc, ipc
ivars == <<todo, active, wq, wrun, ppc, cur, spc, ipc>>
vars == <<svars, ivars>>

\* Instances for the configurations.
Sub2 == {"s1", "s2"}
Scr2 == [s \in Sub2 |-> IF s = "s1" THEN <<<<"a1", "W">>, <<"a2", "W">>>> ELSE <<<<"b1", "">>>>]
Nest2 == [t \in {"a1", "b1"} |-> IF t = "a1" THEN <<"n1", "W">> ELSE <<"n2", "W">>]
Scr1 == [s \in Sub2 |-> IF s = "s1" THEN <<<<"a1", "W">>, <<"a2", "V">>>> ELSE <<<<"b1", "W">>>>]
Nest1 == [t \in {"a1"} |-> <<"n1", "W">>]

Workers == {"W", "V"}
NoTask == <<"", "">>
Init == /\ SInit /\ todo = <<>> /\ active = Cardinality(Pool) /\ wq = [w \in Workers |-> <<>>]
        /\ wrun = [w \in Workers |-> FALSE] /\ ppc = [p \in Pool |-> "loop"]
        /\ cur = [p \in Pool |-> NoTask] /\ spc = [s \in Submitters |-> <<1, "call">>] /\ ipc = "start"

\* Handing in task e = <<t, w>>: the state of todo, wq and wrun afterwards.
Push(e) ==
  IF e[2] = "" THEN todo' = Append(todo, e) /\ UNCHANGED <<wq, wrun>>
  ELSE IF wrun[e[2]] THEN wq' = [wq EXCEPT ![e[2]] = Append(@, e)] /\ UNCHANGED <<todo, wrun>>
  ELSE /\ todo' = Append(todo, e) /\ wrun' = [wrun EXCEPT ![e[2]] = TRUE] /\ UNCHANGED wq

\* --- threads handing in tasks
SCall(s) == /\ spc[s][2] = "call" /\ spc[s][1] <= Len(Script[s])
            /\ LET e == Script[s][spc[s][1]] IN SubCallEff(e[1], e[2])
            /\ spc' = [spc EXCEPT ![s][2] = "push"] /\ UNCHANGED <<todo, active, wq, wrun, ppc, cur, ipc>>
SPush(s) == /\ spc[s][2] = "push" /\ Push(Script[s][spc[s][1]])
            /\ spc' = [spc EXCEPT ![s][2] = "ret"] /\ UNCHANGED <<svars, active, ppc, cur, ipc>>
SRet(s) == /\ spc[s][2] = "ret" /\ SubRetEff(Script[s][spc[s][1]][1])
           /\ spc' = [spc EXCEPT ![s] = <<@[1] + 1, "call">>] /\ UNCHANGED <<todo, active, wq, wrun, ppc, cur, ipc>>

\* --- pool threads
PLoop(p) == /\ ppc[p] = "loop" /\ active' = active - 1 /\ ppc' = [ppc EXCEPT ![p] = "wait"]
            /\ UNCHANGED <<svars, todo, wq, wrun, cur, spc, ipc>>
PTake(p) == /\ ppc[p] = "wait" /\ todo # <<>>
            /\ cur' = [cur EXCEPT ![p] = Head(todo)] /\ todo' = Tail(todo) /\ active' = active + 1
            /\ ppc' = [ppc EXCEPT ![p] = "begin"] /\ UNCHANGED <<svars, wq, wrun, spc, ipc>>
PBegin(p) == /\ ppc[p] = "begin" /\ StartEff(cur[p][1])
             /\ ppc' = [ppc EXCEPT ![p] = IF cur[p][1] \in DOMAIN Nest THEN "ncall" ELSE "end"]
             /\ UNCHANGED <<todo, active, wq, wrun, cur, spc, ipc>>
PNCall(p) == /\ ppc[p] = "ncall" /\ LET e == Nest[cur[p][1]] IN SubCallEff(e[1], e[2])
             /\ ppc' = [ppc EXCEPT ![p] = "npush"] /\ UNCHANGED <<todo, active, wq, wrun, cur, spc, ipc>>
PNPush(p) == /\ ppc[p] = "npush" /\ Push(Nest[cur[p][1]])
             /\ ppc' = [ppc EXCEPT ![p] = "nret"] /\ UNCHANGED <<svars, active, cur, spc, ipc>>
PNRet(p) == /\ ppc[p] = "nret" /\ SubRetEff(Nest[cur[p][1]][1])
            /\ ppc' = [ppc EXCEPT ![p] = "end"] /\ UNCHANGED <<todo, active, wq, wrun, cur, spc, ipc>>
PEnd(p) == /\ ppc[p] = "end" /\ EndEff(cur[p][1])
           /\ ppc' = [ppc EXCEPT ![p] = IF cur[p][2] = "" THEN "loop" ELSE "next"]
           /\ UNCHANGED <<todo, active, wq, wrun, cur, spc, ipc>>
PNext(p) == /\ ppc[p] = "next" /\ LET w == cur[p][2] IN
                 IF wq[w] = <<>> THEN wrun' = [wrun EXCEPT ![w] = FALSE] /\ UNCHANGED <<wq, todo>>
                 ELSE /\ todo' = Append(todo, Head(wq[w])) /\ wq' = [wq EXCEPT ![w] = Tail(@)] /\ UNCHANGED wrun
            /\ ppc' = [ppc EXCEPT ![p] = "loop"] /\ UNCHANGED <<svars, active, cur, spc, ipc>>

\* --- a thread waiting for idleness, at any time
ICall == ipc = "start" /\ IdleCallEff(Waiter) /\ ipc' = "wait" /\ UNCHANGED <<todo, active, wq, wrun, ppc, cur, spc>>
IPass == ipc = "wait" /\ todo = <<>> /\ active = 0 /\ ipc' = "ret" /\ UNCHANGED <<svars, todo, active, wq, wrun, ppc, cur, spc>>
IRet == ipc = "ret" /\ IdleRetEff(Waiter) /\ ipc' = "done" /\ UNCHANGED <<todo, active, wq, wrun, ppc, cur, spc>>

Finished == /\ \A s \in Submitters : spc[s][1] > Len(Script[s])
            /\ \A p \in Pool : ppc[p] = "wait" /\ todo = <<>> /\ ipc \in {"start", "done"}

Next == \/ \E s \in Submitters : SCall(s) \/ SPush(s) \/ SRet(s)
        \/ \E p \in Pool : PLoop(p) \/ PTake(p) \/ PBegin(p) \/ PNCall(p) \/ PNPush(p) \/ PNRet(p) \/ PEnd(p) \/ PNext(p)
        \/ ICall \/ IPass \/ IRet
        \/ Finished /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
FairSpec == Spec /\ WF_vars(Next)

AllTasks == UNION {{Script[s][i][1] : i \in 1..Len(Script[s])} : s \in Submitters} \cup {Nest[t][1] : t \in DOMAIN Nest}
ONext == \/ \E t \in AllTasks : \E w \in Workers \cup {""} : SubCall(t, w)
         \/ \E t \in AllTasks : SubRet(t) \/ Start(t) \/ End(t)
         \/ IdleCall(Waiter) \/ IdleRet(Waiter)
Refines == SInit /\ [][ONext]_svars

Complete == Finished => AllDone /\ Tasks = AllTasks
IdleSound == (todo = <<>> /\ active = 0) => run = {}
=============================================================================
