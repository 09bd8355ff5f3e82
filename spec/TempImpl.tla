------------------------------ MODULE TempImpl ------------------------------
(* The manager's algorithm: wipe the directory entry by entry, create files  *)
(* exclusively under random names, crash anywhere.                           *)
EXTENDS Temp, Integers

CONSTANTS Names, Steps, Faults
VARIABLES disk,      \* files in the scratch directory
          outside,   \* files elsewhere
          pc, todo, bad, rec, n, faults
ivars == <<disk, outside, pc, todo, bad, rec, n, faults, files, stuck, up, wild>>
IInit == /\ TmInit /\ disk = {} /\ outside = {"keep"} /\ pc = "down" /\ todo = {} /\ bad = FALSE /\ n = 0 /\ faults = 0
         /\ rec = [k |-> "-"]
Go == n < Steps /\ n' = n + 1
Flt == faults < Faults /\ faults' = faults + 1
Abs == UNCHANGED tmvars
Begin == pc = "down" /\ Go /\ pc' = "wipe" /\ todo' = disk \cup stuck /\ bad' = FALSE /\ rec' = [k |-> "create"]
         /\ UNCHANGED <<disk, outside, faults>> /\ Abs
Kill == pc = "ready" /\ Go /\ pc' = "wipe" /\ todo' = disk \cup stuck /\ bad' = FALSE /\ rec' = [k |-> "destroy"]
        /\ UNCHANGED <<disk, outside, faults>> /\ Abs
Wipe == /\ pc = "wipe" /\ UNCHANGED <<outside, rec, n>> /\ pc' = pc /\ Abs
        /\ \E x \in todo : /\ todo' = todo \ {x}
                           /\ \/ x \in stuck /\ bad' = TRUE /\ UNCHANGED <<disk, faults>>
                              \/ x \notin stuck /\ bad' = bad /\ disk' = disk \ {x} /\ UNCHANGED faults
                              \/ Flt /\ bad' = TRUE /\ UNCHANGED disk
Done == /\ pc = "wipe" /\ todo = {} /\ UNCHANGED <<disk, outside, todo, n, faults, stuck, wild, bad>>
        /\ up' = (rec.k = "create" /\ ~bad) /\ files' = disk
        /\ pc' = IF rec.k = "create" /\ ~bad THEN "ready" ELSE "down"
        /\ rec' = [k |-> rec.k, ok |-> ~bad]
Mk == /\ pc = "ready" /\ Go /\ UNCHANGED <<outside, pc, todo, bad, faults, stuck, up, wild>>
      /\ \E x \in Names \ disk : disk' = disk \cup {x} /\ files' = disk' /\ rec' = [k |-> "make", x |-> x]
CrashI == /\ pc \in {"ready", "wipe"} /\ Flt /\ pc' = "down" /\ up' = FALSE /\ files' = disk /\ rec' = [k |-> "crash"]
          /\ UNCHANGED <<disk, outside, todo, bad, n, stuck, wild>>
Plant == pc = "down" /\ Go /\ rec' = [k |-> "plant"]
         /\ \/ \E x \in Names : disk' = disk \cup {x} /\ files' = disk' /\ stuck' = stuck
            \/ stuck' \in {{}, {"dir"}} /\ UNCHANGED <<disk, files>>
         /\ UNCHANGED <<outside, pc, todo, bad, faults, up, wild>>
INext == Begin \/ Kill \/ Wipe \/ Done \/ Mk \/ CrashI \/ Plant
ISpec == IInit /\ [][INext]_ivars

Step ==
  CASE rec'.k = "create" /\ pc = "wipe" -> Create(rec'.ok, TRUE, TRUE, disk')
    [] rec'.k = "destroy" /\ pc = "wipe" -> Destroy(~rec'.ok, disk')
    [] rec'.k = "make" -> Make(TRUE, rec'.x, TRUE, TRUE, TRUE, FALSE, disk')
    [] rec'.k = "crash" -> up' = FALSE /\ files' \subseteq files
    [] rec'.k = "plant" -> Unstick \/ PlantStuck("dir") \/ \E x \in Names : PlantFile(x)
    [] OTHER -> FALSE
Refines == [][files' # files \/ up' # up \/ stuck' # stuck => Step]_ivars
Confined == outside = {"keep"} /\ (pc = "down" \/ pc = "ready" => files = disk)
=============================================================================
