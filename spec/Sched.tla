------------------------------- MODULE Sched -------------------------------
(* Observable behaviour of a scheduler and its workers.  A task is handed in *)
(* (SubCall .. SubRet), runs (Start .. End) exactly once, and tasks of one   *)
(* worker run one at a time, in the order in which they were handed in.      *)
(* Tasks handed in by overlapping calls may run in either order.             *)
EXTENDS Naturals, FiniteSets

VARIABLES
  sub,     \* task -> [w, r, prev]: worker ("" for none), has the call returned,
           \* tasks of the same worker whose hand-over was complete before
  run,     \* tasks running
  fin,     \* tasks finished
  idlers   \* outstanding idle waits -> has an idle instant been seen

svars == <<sub, run, fin, idlers>>

SNone == [x \in {} |-> 0]
SInit == sub = SNone /\ run = {} /\ fin = {} /\ idlers = SNone

Tasks == DOMAIN sub
QuietIn(s, r, f) == r = {} /\ \A t \in DOMAIN s : s[t].r => t \in f
Quiet == QuietIn(sub, run, fin)
Upd(w, q) == [k \in DOMAIN w |-> w[k] \/ q]

New(w) == [w |-> w, r |-> FALSE,
           prev |-> IF w = "" THEN {} ELSE {u \in Tasks \ fin : sub[u].w = w /\ sub[u].r}]
SubCallEff(t, w) == /\ sub' = [x \in Tasks \cup {t} |-> IF x = t THEN New(w) ELSE sub[x]]
                    /\ UNCHANGED <<run, fin>> /\ idlers' = Upd(idlers, QuietIn(sub', run, fin))
SubRetEff(t) == /\ sub' = [sub EXCEPT ![t].r = TRUE] /\ UNCHANGED <<run, fin>>
                /\ idlers' = Upd(idlers, QuietIn(sub', run, fin))
StartEff(t) == /\ run' = run \cup {t} /\ UNCHANGED <<sub, fin>> /\ idlers' = Upd(idlers, FALSE)
EndEff(t) == /\ run' = run \ {t} /\ fin' = fin \cup {t} /\ UNCHANGED sub
             /\ idlers' = Upd(idlers, QuietIn(sub, run', fin'))
IdleCallEff(k) == /\ idlers' = [x \in DOMAIN idlers \cup {k} |-> IF x = k THEN Quiet ELSE idlers[x]]
                  /\ UNCHANGED <<sub, run, fin>>
IdleRetEff(k) == /\ idlers' = [x \in DOMAIN idlers \ {k} |-> idlers[x]] /\ UNCHANGED <<sub, run, fin>>

MayStart(t) ==
  /\ t \in Tasks \ (run \cup fin)
  /\ sub[t].w # "" =>
       \A u \in Tasks \ {t} : sub[u].w = sub[t].w =>
          /\ u \notin run
          /\ u \notin fin => u \notin sub[t].prev

SubCall(t, w) == t \notin Tasks /\ SubCallEff(t, w)
SubRet(t)     == t \in Tasks /\ ~sub[t].r /\ SubRetEff(t)
Start(t)      == MayStart(t) /\ StartEff(t)
End(t)        == t \in run /\ EndEff(t)
IdleCall(k)   == k \notin DOMAIN idlers /\ IdleCallEff(k)
IdleRet(k)    == k \in DOMAIN idlers /\ idlers[k] /\ IdleRetEff(k)

AllDone == run = {} /\ fin = Tasks
=============================================================================
