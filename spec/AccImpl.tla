------------------------------ MODULE AccImpl ------------------------------
(* The algorithm of Accumulator: counters under a mutex, generators on pool  *)
(* threads, folds on one sequential thread, an observer slot, cancellation   *)
(* that waits for the active count.  Checked to refine Acc.                  *)
EXTENDS Acc, TLC

CONSTANTS Tasks, Observers, MayCancel, Pool

VARIABLES rem, act, cancelled, flag, slot,  \* guarded state
          tpc,                               \* task -> step of its life
          seqq,                              \* queue of the sequential thread
          spc,                               \* what the sequential thread does
          mpc, opc, todo                     \* main thread and cancelling thread
ivars == <<rem, act, cancelled, flag, slot, tpc, seqq, spc, mpc, opc, todo>>
vars == <<avars, ivars>>

Init == /\ AInit /\ rem = 0 /\ act = 0 /\ cancelled = FALSE /\ flag = FALSE /\ slot = 0
        /\ tpc = [t \in Tasks |-> "new"] /\ seqq = <<>> /\ spc = <<"idle", 0>> /\ mpc = <<"free", 0>>
        /\ opc = "no" /\ todo = Observers

\* main thread: schedules tasks and registers observers in any order
MSched(t) == /\ mpc[1] = "free" /\ tpc[t] = "new" /\ SchedCall(t) /\ tpc' = [tpc EXCEPT ![t] = "count"]
             /\ mpc' = <<"sched", t>> /\ UNCHANGED <<rem, act, cancelled, flag, slot, seqq, spc, opc, todo>>
MCount == /\ mpc[1] = "sched" /\ LET t == mpc[2] IN
               /\ tpc[t] = "count" /\ tpc' = [tpc EXCEPT ![t] = "queued"]
               /\ flag' = (flag \/ rem = 0) /\ rem' = rem + 1
          /\ UNCHANGED <<avars, act, cancelled, slot, seqq, spc, mpc, opc, todo>>
MSchedRet == /\ mpc[1] = "sched" /\ tpc[mpc[2]] # "count" /\ SchedRet(mpc[2])
             /\ mpc' = <<"free", 0>> /\ UNCHANGED <<rem, act, cancelled, flag, slot, tpc, seqq, spc, opc, todo>>
MObs(k) == /\ mpc[1] = "free" /\ k \in todo /\ todo' = todo \ {k} /\ ObsCall(k) /\ mpc' = <<"obs", k>>
           /\ UNCHANGED <<rem, act, cancelled, flag, slot, tpc, seqq, spc, opc>>
MObsDo == /\ mpc[1] = "obs" /\ LET k == mpc[2] IN
             IF ~flag THEN mpc' = <<"obsno", k>> /\ UNCHANGED <<flag, slot, seqq, avars>>
             ELSE /\ mpc' = <<"obsyes", k>>
                  /\ IF rem = 0 THEN flag' = FALSE /\ seqq' = Append(seqq, <<"cb", k>>) /\ UNCHANGED <<slot, avars>>
                     \* The observer that was waiting is no longer called.
                     ELSE /\ slot' = k /\ UNCHANGED <<flag, seqq>>
                          /\ obs' = [x \in DOMAIN obs |-> IF x = slot THEN [obs[x] EXCEPT !.active = FALSE] ELSE obs[x]]
                          /\ UNCHANGED <<st, acc, comb, can, unobs, cur>>
          /\ UNCHANGED <<rem, act, cancelled, tpc, spc, opc, todo>>
\* The answer travels back; the observer may already have been called meanwhile.
MObsRet == /\ mpc[1] \in {"obsno", "obsyes"}
           /\ obs' = (IF mpc[1] = "obsno" THEN [obs EXCEPT ![mpc[2]].active = FALSE] ELSE obs)
           /\ UNCHANGED <<st, acc, comb, can, unobs, cur>>
           /\ mpc' = <<"free", 0>> /\ UNCHANGED <<rem, act, cancelled, flag, slot, tpc, seqq, spc, opc, todo>>

Busy == Cardinality({t \in Tasks : tpc[t] \in {"gen", "gend", "gendec"}})
GEnter(t) == /\ tpc[t] = "queued" /\ Busy < Pool
             /\ IF cancelled THEN tpc' = [tpc EXCEPT ![t] = "gone"] /\ UNCHANGED <<act, avars>>
                ELSE /\ act' = act + 1 /\ tpc' = [tpc EXCEPT ![t] = "gen"] /\ UNCHANGED avars
             /\ UNCHANGED <<rem, cancelled, flag, slot, seqq, spc, mpc, opc, todo>>
GRun(t) == /\ tpc[t] = "gen" /\ st' = SetS(t, "gen") /\ UNCHANGED <<acc, comb, can, unobs, obs, cur>>
           /\ tpc' = [tpc EXCEPT ![t] = "gend"] /\ UNCHANGED <<rem, act, cancelled, flag, slot, seqq, spc, mpc, opc, todo>>
GDone(t) == /\ tpc[t] = "gend" /\ st' = SetS(t, "made") /\ UNCHANGED <<acc, comb, can, unobs, obs, cur>>
            /\ tpc' = [tpc EXCEPT ![t] = "gendec"] /\ UNCHANGED <<rem, act, cancelled, flag, slot, seqq, spc, mpc, opc, todo>>
GDec(t) == /\ tpc[t] = "gendec" /\ act' = act - 1
           /\ IF cancelled THEN tpc' = [tpc EXCEPT ![t] = "gone"] /\ UNCHANGED seqq
              ELSE tpc' = [tpc EXCEPT ![t] = "inseq"] /\ seqq' = Append(seqq, <<"fold", t>>)
           /\ UNCHANGED <<avars, rem, cancelled, flag, slot, spc, mpc, opc, todo>>

QTake == /\ spc[1] = "idle" /\ seqq # <<>> /\ spc' = Head(seqq) /\ seqq' = Tail(seqq)
         /\ UNCHANGED <<avars, rem, act, cancelled, flag, slot, tpc, mpc, opc, todo>>
QEnter == /\ spc[1] = "fold"
          /\ IF cancelled THEN spc' = <<"idle", 0>> /\ UNCHANGED act ELSE spc' = <<"start", spc[2]>> /\ act' = act + 1
          /\ UNCHANGED <<avars, rem, cancelled, flag, slot, tpc, seqq, mpc, opc, todo>>
QStart == /\ spc[1] = "start" /\ comb' = spc[2] /\ st' = SetS(spc[2], "comb") /\ UNCHANGED <<acc, can, unobs, obs, cur>>
          /\ spc' = <<"end", spc[2]>> /\ UNCHANGED <<rem, act, cancelled, flag, slot, tpc, seqq, mpc, opc, todo>>
QEnd == /\ spc[1] = "end" /\ CombEnd(spc[2]) /\ spc' = <<"upd", spc[2]>>
        /\ UNCHANGED <<rem, act, cancelled, flag, slot, tpc, seqq, mpc, opc, todo>>
QUpd == /\ spc[1] = "upd" /\ act' = act - 1 /\ rem' = rem - 1
        /\ IF rem' = 0 /\ slot # 0 THEN flag' = FALSE /\ slot' = 0 /\ spc' = <<"cb", slot>>
           ELSE spc' = <<"idle", 0>> /\ UNCHANGED <<flag, slot>>
        /\ UNCHANGED <<avars, cancelled, tpc, seqq, mpc, opc, todo>>
QCb == /\ spc[1] = "cb" /\ obs' = [obs EXCEPT ![spc[2]].active = FALSE]
       /\ unobs' = (IF spc[2] = cur THEN FALSE ELSE unobs) /\ cur' = (IF spc[2] = cur THEN 0 ELSE cur)
       /\ UNCHANGED <<st, acc, comb, can>>
       /\ spc' = <<"idle", 0>> /\ UNCHANGED <<rem, act, cancelled, flag, slot, tpc, seqq, mpc, opc, todo>>

CCall == MayCancel /\ opc = "no" /\ CancelCall /\ opc' = "set" /\ UNCHANGED <<rem, act, cancelled, flag, slot, tpc, seqq, spc, mpc, todo>>
CSet == opc = "set" /\ cancelled' = TRUE /\ opc' = "wait" /\ UNCHANGED <<avars, rem, act, flag, slot, tpc, seqq, spc, mpc, todo>>
CRet == opc = "wait" /\ act = 0 /\ can' = "yes" /\ opc' = "done"
        /\ UNCHANGED <<st, acc, comb, unobs, obs, cur, rem, act, cancelled, flag, slot, tpc, seqq, spc, mpc, todo>>

Finished == /\ \A t \in Tasks : tpc[t] \in {"inseq", "gone"} /\ seqq = <<>> /\ spc[1] = "idle"
            /\ todo = {} /\ mpc[1] = "free" /\ opc \in {"no", "done"}
Next == \/ \E t \in Tasks : MSched(t) \/ GEnter(t) \/ GRun(t) \/ GDone(t) \/ GDec(t)
        \/ \E k \in Observers : MObs(k)
        \/ MCount \/ MSchedRet \/ MObsDo \/ MObsRet \/ QTake \/ QEnter \/ QStart \/ QEnd \/ QUpd \/ QCb \/ CCall \/ CSet \/ CRet
        \/ Finished /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars

\* Deactivating an observer is the effect of being replaced or refused.
Deact == \E k \in DOMAIN obs : obs' = [obs EXCEPT ![k].active = FALSE] /\ UNCHANGED <<st, acc, comb, can, unobs, cur>>
                               /\ (mpc[1] = "obs" \/ mpc[1] = "obsno")
ONext == \/ \E t \in Tasks : SchedCall(t) \/ SchedRet(t) \/ GenStart(t) \/ GenEnd(t) \/ CombStart(acc, t) \/ CombEnd(t)
         \/ \E k \in Observers : ObsCall(k) \/ Fired(k)
         \/ Deact \/ CancelCall \/ CancelRet
Refines == AInit /\ [][ONext]_avars
OnceEach == /\ Len(acc) <= Cardinality(Tasks) /\ \A i, j \in 1..Len(acc) : i # j => acc[i] # acc[j]
IdleSound == rem = 0 => RetDone(st)
EndOk == Finished => Settled
=============================================================================
