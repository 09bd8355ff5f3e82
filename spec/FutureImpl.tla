----------------------------- MODULE FutureImpl -----------------------------
(* FutureState: the value is written, then a notification is raised; waiters *)
(* poll the notification with or without a time limit; the taker blocks on   *)
(* it.  Checked to refine Future and to release every unbounded waiter.      *)
EXTENDS Future, TLC

CONSTANTS Waiters, Infinite, Rounds

VARIABLES spc, cell, notified, wpc, round, tpc, got
ivars == <<spc, cell, notified, wpc, round, tpc, got>>
vars == <<fvars, ivars>>

Init == /\ FInit /\ spc = "start" /\ cell = "unset" /\ notified = FALSE
        /\ wpc = [w \in Waiters |-> "idle"] /\ round = [w \in Waiters |-> 0] /\ tpc = "idle" /\ got = "?"

SCall == /\ spc = "start" /\ \E v \in {"v", None} : p' = "settling" /\ val' = v
         /\ spc' = "write" /\ UNCHANGED <<waits, ready, taker, cell, notified, wpc, round, tpc, got>>
SWrite == /\ spc = "write" /\ cell' = val /\ spc' = "notify" /\ UNCHANGED <<fvars, notified, wpc, round, tpc, got>>
SNotify == /\ spc = "notify" /\ notified' = TRUE /\ spc' = "ret" /\ UNCHANGED <<fvars, cell, wpc, round, tpc, got>>
SRet == /\ spc = "ret" /\ p' = "settled" /\ spc' = "done"
        /\ UNCHANGED <<val, waits, ready, taker, cell, notified, wpc, round, tpc, got>>

WCall(w) == /\ wpc[w] = "idle" /\ round[w] < Rounds /\ WaitCallEff(w, w \in Infinite)
            /\ wpc' = [wpc EXCEPT ![w] = "wait"] /\ round' = [round EXCEPT ![w] = @ + 1]
            /\ UNCHANGED <<spc, cell, notified, tpc, got>>
WSee(w) == /\ wpc[w] = "wait" /\ (notified \/ w \notin Infinite)
           /\ wpc' = [wpc EXCEPT ![w] = IF notified THEN "yes" ELSE "no"]
           /\ UNCHANGED <<fvars, spc, cell, notified, round, tpc, got>>
WRet(w) == /\ wpc[w] \in {"yes", "no"} /\ WaitRetEff(w, wpc[w] = "yes")
           /\ wpc' = [wpc EXCEPT ![w] = "idle"] /\ UNCHANGED <<spc, cell, notified, round, tpc, got>>

TCall == tpc = "idle" /\ taker' = "taking" /\ tpc' = "wait" /\ UNCHANGED <<p, val, waits, ready, spc, cell, notified, wpc, round, got>>
TSee == tpc = "wait" /\ notified /\ got' = cell /\ tpc' = "ret" /\ UNCHANGED <<fvars, spc, cell, notified, wpc, round>>
TRet == tpc = "ret" /\ taker' = "taken" /\ tpc' = "done" /\ UNCHANGED <<p, val, waits, ready, spc, cell, notified, wpc, round, got>>

Finished == spc = "done" /\ tpc = "done" /\ \A w \in Waiters : wpc[w] = "idle" /\ round[w] = Rounds
Next == \/ SCall \/ SWrite \/ SNotify \/ SRet \/ TCall \/ TSee \/ TRet
        \/ \E w \in Waiters : WCall(w) \/ WSee(w) \/ WRet(w)
        \/ Finished /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars

ONext == \/ \E v \in {"v", None} : SettleCall(v)
         \/ SettleRet \/ TakeCall \/ (taker = "taking" /\ TakeRet(got))
         \/ \E k \in Waiters : \E b \in BOOLEAN : WaitCall(k, b) \/ WaitRet(k, b)
Refines == FInit /\ [][ONext]_fvars
\* Deadlock checking shows that nobody waits for ever; the value is whole when seen.
Whole == notified => cell = val
=============================================================================
