-------------------------------- MODULE Temp --------------------------------
(* Scratch files of a temporary-file manager.                                *)
(* files: names of regular files in the scratch directory; stuck: entries    *)
(* there that cannot simply be deleted (directories with contents).          *)
(* up: a manager exists.  wild: a foreign process owns the directory's fate. *)
EXTENDS Naturals, FiniteSets

VARIABLES files, stuck, up, wild
tmvars == <<files, stuck, up, wild>>
TmInit == files = {} /\ stuck = {} /\ up = FALSE /\ wild = FALSE

\* ok: a manager was returned; left: regular files there afterwards.
Create(ok, abs, fault, left) ==
  /\ ~up /\ wild' = wild
  /\ IF ok THEN abs /\ left = {} /\ files' = {} /\ up' = TRUE /\ stuck' = {}
     ELSE /\ ~abs \/ fault \/ stuck # {} \/ wild
          /\ left \subseteq files /\ files' = left /\ up' = FALSE /\ stuck' = stuck
Make(ok, name, inside, empty, named, fault, left) ==
  /\ up /\ UNCHANGED <<stuck, up, wild>> /\ files' = left
  /\ IF ok THEN inside /\ empty /\ named /\ name \notin files /\ left = files \cup {name}
     ELSE fault /\ files \subseteq left
Destroy(fault, left) ==
  /\ up /\ up' = FALSE /\ files' = left /\ UNCHANGED <<stuck, wild>>
  /\ IF fault THEN left \subseteq files ELSE left = {}
Crash == up' = FALSE /\ UNCHANGED <<files, stuck, wild>>
\* A foreign process leaves something in the directory while no manager exists.
PlantFile(n) == ~up /\ files' = files \cup {n} /\ UNCHANGED <<stuck, up, wild>>
PlantStuck(n) == ~up /\ stuck' = stuck \cup {n} /\ UNCHANGED <<files, up, wild>>
Unstick == ~up /\ stuck' = {} /\ UNCHANGED <<files, up, wild>>
Block(b) == ~up /\ wild' = b /\ UNCHANGED <<files, stuck, up>>
=============================================================================
