------------------------------- MODULE Future -------------------------------
(* Observable behaviour of a promise/future pair.  The promise is settled by *)
(* setting a value or by dropping it (value None), the future becomes ready  *)
(* with that and stays ready.                                                *)
EXTENDS Naturals

None == "none"

VARIABLES
  p,       \* promise: "live", "settling" (call running), "settled"
  val,     \* the value (to be) delivered
  waits,   \* outstanding waits -> [must: it has to report ready, inf: no time limit]
  ready,   \* some wait has reported ready
  taker    \* "none", "taking", "taken"

fvars == <<p, val, waits, ready, taker>>
FNone == [x \in {} |-> 0]
FInit == p = "live" /\ val = None /\ waits = FNone /\ ready = FALSE /\ taker = "none"

SettleCall(v) == /\ p = "live" /\ p' = "settling" /\ val' = v /\ UNCHANGED <<waits, ready, taker>>
SettleRet == /\ p = "settling" /\ p' = "settled" /\ UNCHANGED <<val, waits, ready, taker>>
WaitCallEff(k, inf) ==
  /\ waits' = [x \in DOMAIN waits \cup {k} |->
                 IF x = k THEN [must |-> p = "settled" \/ ready \/ inf, inf |-> inf] ELSE waits[x]]
  /\ UNCHANGED <<p, val, ready, taker>>
WaitRetEff(k, r) ==
  /\ waits' = [x \in DOMAIN waits \ {k} |-> waits[x]]
  /\ ready' = (ready \/ r) /\ UNCHANGED <<p, val, taker>>
WaitCall(k, inf) == k \notin DOMAIN waits /\ WaitCallEff(k, inf)
WaitRet(k, r) == /\ k \in DOMAIN waits
                 /\ (IF r THEN p # "live" ELSE ~waits[k].must)
                 /\ WaitRetEff(k, r)
TakeCall == taker = "none" /\ taker' = "taking" /\ UNCHANGED <<p, val, waits, ready>>
TakeRet(v) == /\ taker = "taking" /\ p # "live" /\ v = val
              /\ taker' = "taken" /\ UNCHANGED <<p, val, waits, ready>>
=============================================================================
