----------------------------- MODULE EligLife -----------------------------
(* A client over time: it decides, contributes where eligible, loses its     *)
(* history now and then.  What the policies are for: two successful          *)
(* contributions of a task (of a group) are at least the period apart.      *)
EXTENDS Elig, FiniteSets

CONSTANTS Tasks, Horizon, MaxRuns

VARIABLES now, ett, hist, real
vars == <<now, ett, hist, real>>

Per == [k |-> "swor", v |-> 1, period |-> 2, group |-> "none", matched |-> {}]
Grp == [k |-> "swor", v |-> 1, period |-> 3, group |-> "set", matched |-> {"a", "b"}]
Flags == [query |-> FALSE, trust |-> FALSE]
Policies == <<Per, Grp>>
Uses(t) == IF t = "a" THEN {1} ELSE IF t = "b" THEN {2} ELSE {1, 2}

Init == now = 0 /\ ett \in -3..0 /\ hist = <<>> /\ real = <<>>
Tick == now < Horizon /\ now' = now + 1 /\ UNCHANGED <<ett, hist, real>>
Run(t) == /\ Len(real) < MaxRuns /\ Eligible(Policies, Uses(t), t, hist, ett, now, Flags)
          /\ \E ok \in BOOLEAN : LET c == [task |-> t, t |-> now, ok |-> ok, idx |-> -1] IN
               hist' = Append(hist, c) /\ real' = Append(real, c)
          /\ UNCHANGED <<now, ett>>
Lose == hist' = <<>> /\ ett' = now /\ UNCHANGED <<now, real>>
Next == Tick \/ Lose \/ \E t \in Tasks : Run(t)
Spec == Init /\ [][Next]_vars

Apart == \A i, j \in 1..Len(real) :
  (i < j /\ real[i].ok) =>
    /\ (1 \in Uses(real[j].task) /\ real[i].task = real[j].task) => real[j].t - real[i].t >= Per.period
    /\ (2 \in Uses(real[j].task) /\ real[i].task \in Grp.matched) => real[j].t - real[i].t >= Grp.period
=============================================================================
