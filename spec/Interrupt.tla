----------------------------- MODULE Interrupt -----------------------------
(* Observable behaviour of interruptible calls.  A call is looked at by its  *)
(* caller (phase) and by the worker that executes it (body).  Abort requests *)
(* are seen through polls.                                                   *)
EXTENDS Naturals, Sequences

VARIABLES
  ph,     \* call -> phase of its caller
  body,   \* call -> "no", "running", "ended"
  res     \* call -> result of the body

rvars == <<ph, body, res>>
\* before -> waiting -> (returned) | toabort -> grace -> stopped | late -> stopped | giveup
Known == DOMAIN ph
RInit == ph = [c \in {} |-> ""] /\ body = [c \in {} |-> ""] /\ res = [c \in {} |-> ""]
Put(f, c, v) == [x \in DOMAIN f \cup {c} |-> IF x = c THEN v ELSE f[x]]

CallEff(c) == ph' = Put(ph, c, "before") /\ body' = Put(body, c, "no") /\ res' = Put(res, c, "")
SetPh(c, v) == ph' = [ph EXCEPT ![c] = v] /\ UNCHANGED <<body, res>>
StartEff(c) == body' = [body EXCEPT ![c] = "running"] /\ UNCHANGED <<ph, res>>
EndEff(c, r) == body' = [body EXCEPT ![c] = "ended"] /\ res' = [res EXCEPT ![c] = r] /\ UNCHANGED ph

Call(c) == c \notin Known /\ CallEff(c)
\* The first poll happens before the call is handed over, the others while waiting for it.
Poll(c, r) == /\ c \in Known /\ ph[c] \in {"before", "waiting"}
              /\ SetPh(c, IF ~r THEN "waiting" ELSE IF ph[c] = "before" THEN "refused" ELSE "toabort")
Start(c) == /\ c \in Known /\ body[c] = "no" /\ ph[c] \in {"waiting", "toabort", "grace", "late", "giveup"}
            /\ \A d \in Known : body[d] # "running"
            /\ StartEff(c)
End(c, r) == c \in Known /\ body[c] = "running" /\ EndEff(c, r)
Hook(c) == c \in Known /\ ph[c] = "toabort" /\ SetPh(c, "grace")
\* What is recorded: 1 stopped in time, 2 not in time, 3 stopped in the extended time, 4 not even then.
Diag(c, k) ==
  /\ c \in Known
  /\ \/ k = 1 /\ ph[c] = "grace" /\ body[c] = "ended" /\ SetPh(c, "stopped")
     \/ k = 2 /\ ph[c] = "grace" /\ SetPh(c, "late")
     \/ k = 3 /\ ph[c] = "late" /\ body[c] = "ended" /\ SetPh(c, "stopped")
     \/ k = 4 /\ ph[c] = "late" /\ SetPh(c, "giveup")
Return(c, r) ==
  /\ c \in Known
  /\ \/ ph[c] = "refused" /\ body[c] = "no" /\ r = "CANCELLED"
     \/ ph[c] = "waiting" /\ body[c] = "ended" /\ r = res[c]
     \/ ph[c] = "stopped" /\ r = "CANCELLED"
  /\ SetPh(c, "returned")
\* The process ends itself only when some call could not be stopped at all.
Exit == \E c \in Known : ph[c] = "giveup"
\* The runner goes away: nothing it was given is still executing or to come.
Free == \A c \in Known : ph[c] = "returned" /\ body[c] # "running"
=============================================================================
