----------------------------- MODULE MediaImpl -----------------------------
(* The media service as built: two tables and one lock.  Threads look at a    *)
(* table and then change it, which the lock makes one step.  What callers see *)
(* is fed to the monitor of Media.                                            *)
EXTENDS Media
CONSTANTS Threads, MaxOps, Bug

VARIABLES up, dl, lk, pc, op, seen, left, nu, ng, ms
vars == <<up, dl, lk, pc, op, seen, left, nu, ng, ms>>

UName(i) == <<"u1", "u2", "u3", "u4">>[i]
GName(i) == <<"g1", "g2", "g3", "g4">>[i]
Bodies == {"a", "b"}
Idle == [op |-> "idle", n |-> "", f |-> "", b |-> ""]

Init == /\ up = <<>> /\ dl = <<>> /\ lk = 0
        /\ pc = [t \in Threads |-> "idle"]
        /\ op = [t \in Threads |-> Idle]
        /\ seen = [t \in Threads |-> ""]
        /\ left = MaxOps /\ nu = 0 /\ ng = 0
        /\ ms = Start

Ops == {[op |-> "reg", n |-> "", f |-> "", b |-> ""]}
  \cup {[op |-> "open", n |-> "", f |-> "", b |-> ""]}
  \cup {[op |-> "up", n |-> UName(i), f |-> "", b |-> b] : i \in 1..nu, b \in Bodies}
  \cup {[op |-> "fin", n |-> UName(i), f |-> "", b |-> ""] : i \in 1..nu}
  \cup {[op |-> "add", n |-> GName(i), f |-> "x", b |-> b] : i \in 1..ng, b \in Bodies}
  \cup {[op |-> "get", n |-> GName(i), f |-> "x", b |-> ""] : i \in 1..ng}
  \cup {[op |-> "close", n |-> GName(i), f |-> "", b |-> ""] : i \in 1..ng}

Call(t) == /\ pc[t] = "idle" /\ left > 0
           /\ \E o \in Ops :
                /\ o.op = "reg" => nu < 2
                /\ o.op = "open" => ng < 2
                \* A group is closed once, by whoever holds it.
                /\ o.op = "close" => /\ o.n \in DOMAIN dl
                                     /\ \A u \in Threads : op[u].op = "close" => op[u].n # o.n
                /\ op' = [op EXCEPT ![t] = o]
                /\ ms' = Called(ms, t, o)
           /\ left' = left - 1
           /\ pc' = [pc EXCEPT ![t] = "look"]
           /\ UNCHANGED <<up, dl, lk, seen, nu, ng>>

Locks == Bug # "nolock"

Look(t) ==
  LET o == op[t] IN
  /\ pc[t] = "look"
  /\ Locks => lk = 0
  /\ lk' = IF Locks THEN t ELSE 0
  /\ seen' = [seen EXCEPT ![t] =
       CASE o.op \in {"up", "fin"} -> IF o.n \in DOMAIN up THEN up[o.n] ELSE "missing"
         [] o.op \in {"add", "get"} ->
              IF o.n \in DOMAIN dl /\ o.f \in DOMAIN dl[o.n] THEN dl[o.n][o.f]
              ELSE IF o.n \in DOMAIN dl THEN "absent" ELSE "missing"
         [] OTHER -> ""]
  /\ pc' = [pc EXCEPT ![t] = "act"]
  /\ UNCHANGED <<up, dl, op, left, nu, ng, ms>>

Ret(t, r, v) == ms' = Returned(ms, t, r, v)

Act(t) ==
  LET o == op[t] sn == seen[t] IN
  /\ pc[t] = "act"
  /\ pc' = [pc EXCEPT ![t] = "idle"]
  /\ op' = [op EXCEPT ![t] = Idle]
  /\ lk' = 0
  /\ UNCHANGED <<seen, left>>
  /\ CASE o.op = "reg" -> /\ nu' = nu + 1 /\ up' = Put(up, UName(nu'), None)
                          /\ Ret(t, "ok", UName(nu')) /\ UNCHANGED <<dl, ng>>
       [] o.op = "open" -> /\ ng' = ng + 1 /\ dl' = Put(dl, GName(ng'), <<>>)
                           /\ Ret(t, "ok", GName(ng')) /\ UNCHANGED <<up, nu>>
       [] o.op = "up" ->
            /\ UNCHANGED <<dl, nu, ng>>
            /\ IF sn = None \/ (Bug = "twice" /\ sn # "missing")
                 THEN up' = Put(up, o.n, o.b) /\ Ret(t, "ok", "")
                 ELSE up' = up /\ Ret(t, "401", "")
       [] o.op = "fin" ->
            /\ UNCHANGED <<dl, nu, ng>>
            /\ IF sn # "missing"
                 THEN /\ up' = IF Bug = "keep" THEN up ELSE Drop(up, o.n)
                      /\ Ret(t, "ok", sn)
                 ELSE up' = up /\ Ret(t, "error", "")
       [] o.op = "add" ->
            /\ UNCHANGED <<up, nu, ng>>
            /\ IF sn = "absent" \/ (Bug = "replace" /\ sn # "missing")
                 THEN dl' = Put(dl, o.n, Put(IF o.n \in DOMAIN dl THEN dl[o.n] ELSE <<>>, o.f, o.b))
                      /\ Ret(t, "ok", "")
                 ELSE dl' = dl /\ Ret(t, "error", "")
       [] o.op = "get" ->
            /\ UNCHANGED <<up, dl, nu, ng>>
            /\ IF sn \notin {"absent", "missing"} THEN Ret(t, "ok", sn) ELSE Ret(t, "404", "")
       [] o.op = "close" ->
            /\ UNCHANGED <<up, nu, ng>>
            /\ dl' = IF Bug = "leak" THEN dl ELSE Drop(dl, o.n)
            /\ Ret(t, "ok", "")

Next == \E t \in Threads : Call(t) \/ Look(t) \/ Act(t)
Spec == Init /\ [][Next]_vars

Legal == ms # {}
\* The tables hold what the history says (when nobody is in the middle of a call).
Quiet == \A t \in Threads : pc[t] = "idle"
Exact == Quiet => \E m \in ms : m.s.up = up /\ m.s.dl = dl
=============================================================================
