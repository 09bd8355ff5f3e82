--------------------------- MODULE InterruptImpl ---------------------------
(* The runner: one worker thread with a queue, callers that post a closure   *)
(* and wait for its future with a polling period, then the abort sequence    *)
(* with its two waiting periods.  Time is abstracted: any bounded wait may   *)
(* end before its event.  Checked to refine Interrupt; Flip lets abort       *)
(* requests come and go.                                                     *)
EXTENDS Interrupt, FiniteSets, TLC

CONSTANTS Callers, PerCaller

VARIABLES queue, cur, fut, pc, n, asked, exited
ivars == <<queue, cur, fut, pc, n, asked, exited>>
vars == <<rvars, ivars>>
Results == {"OK", "CANCELLED", "INTERNAL"}

Id(t) == <<t, n[t]>>
Init == /\ RInit /\ queue = <<>> /\ cur = <<>> /\ fut = {} /\ asked = FALSE /\ exited = FALSE
        /\ pc = [t \in Callers |-> "idle"] /\ n = [t \in Callers |-> 0]

Go(t, v) == pc' = [pc EXCEPT ![t] = v]
Same == UNCHANGED <<queue, cur, fut, n, asked, exited>>
Ask == /\ asked' = ~asked /\ UNCHANGED <<rvars, queue, cur, fut, pc, n, exited>>
Enter(t) == /\ pc[t] = "idle" /\ n[t] < PerCaller /\ n' = [n EXCEPT ![t] = @ + 1] /\ Go(t, "first")
            /\ CallEff(<<t, n[t] + 1>>) /\ UNCHANGED <<queue, cur, fut, asked, exited>>
First(t) == /\ pc[t] = "first" /\ Same
            /\ (IF asked THEN Go(t, "refused") /\ SetPh(Id(t), "refused")
                         ELSE Go(t, "post") /\ SetPh(Id(t), "waiting"))
Post(t) == /\ pc[t] = "post" /\ queue' = Append(queue, Id(t)) /\ Go(t, "wait")
           /\ UNCHANGED <<rvars, cur, fut, n, asked, exited>>
Wait(t) == /\ pc[t] = "wait" /\ Go(t, IF Id(t) \in fut THEN "result" ELSE "poll")
           /\ Same /\ UNCHANGED rvars
PollAgain(t) == /\ pc[t] = "poll" /\ Same
                /\ (IF asked THEN Go(t, "hook") /\ SetPh(Id(t), "toabort")
                             ELSE Go(t, "wait") /\ SetPh(Id(t), "waiting"))
DoHook(t) == pc[t] = "hook" /\ Go(t, "grace") /\ Same /\ SetPh(Id(t), "grace")
Grace(t) == /\ pc[t] = "grace" /\ Same
            /\ IF Id(t) \in fut THEN Go(t, "cancelled") /\ SetPh(Id(t), "stopped")
                                ELSE Go(t, "extended") /\ SetPh(Id(t), "late")
Extended(t) == /\ pc[t] = "extended" /\ Same
               /\ IF Id(t) \in fut THEN Go(t, "cancelled") /\ SetPh(Id(t), "stopped")
                                   ELSE Go(t, "exit") /\ SetPh(Id(t), "giveup")
DoExit(t) == pc[t] = "exit" /\ exited' = TRUE /\ UNCHANGED <<rvars, queue, cur, fut, pc, n, asked>>
Ret(t) == /\ pc[t] \in {"refused", "result", "cancelled"} /\ Go(t, "idle") /\ Same /\ SetPh(Id(t), "returned")

Pick == /\ cur = <<>> /\ queue # <<>> /\ cur' = Head(queue) /\ queue' = Tail(queue) /\ StartEff(Head(queue))
        /\ UNCHANGED <<fut, pc, n, asked, exited>>
Work == /\ cur # <<>> /\ body[cur] = "running" /\ (\E r \in Results : EndEff(cur, r))
        /\ UNCHANGED ivars
Settle == /\ cur # <<>> /\ body[cur] = "ended" /\ fut' = fut \cup {cur} /\ cur' = <<>>
          /\ UNCHANGED <<rvars, queue, pc, n, asked, exited>>

Done == exited \/ \A t \in Callers : pc[t] = "idle" /\ n[t] = PerCaller
Next == \/ Done /\ UNCHANGED vars
        \/ /\ ~exited
           /\ \/ Pick \/ Work \/ Settle \/ Ask
              \/ \E t \in Callers : \/ Enter(t) \/ First(t) \/ Post(t) \/ Wait(t) \/ PollAgain(t)
                                    \/ DoHook(t) \/ Grace(t) \/ Extended(t) \/ DoExit(t) \/ Ret(t)
Spec == Init /\ [][Next]_vars

ONext == \E c \in Callers \X (1..PerCaller) :
  \/ Call(c) \/ Start(c) \/ Hook(c)
  \/ \E b \in BOOLEAN : Poll(c, b)
  \/ \E r \in Results : End(c, r) \/ Return(c, r)
  \/ \E k \in 1..4 : Diag(c, k)
Refines == RInit /\ [][ONext]_rvars
ExitOk == exited => Exit
IdleOk == (\A t \in Callers : pc[t] = "idle") => Free
=============================================================================
