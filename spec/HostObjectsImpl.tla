--------------------------- MODULE HostObjectsImpl ---------------------------
(* The registry as built: a table for each interface under a lock, entries    *)
(* holding references to the objects.  Taking an entry out hands its          *)
(* reference over; giving up the last one destroys the object, which may in   *)
(* turn end the registration it keeps.  What callers see is fed to the        *)
(* monitor.                                                                   *)
EXTENDS HostObjects
CONSTANTS Threads, MaxRegs, MaxOps, Bug

VARIABLES table, part, held, frames, pool, nreg, lock, left, ms
vars == <<table, part, held, frames, pool, nreg, lock, left, ms>>

\* Objects have the number of their registration; tokens too, unless they are drawn badly.
Kinds == {1, 2}
Init == /\ table = {} /\ part = <<>> /\ held = [o \in 1..MaxRegs |-> 0]
        /\ frames = [t \in Threads |-> <<>>] /\ pool = {} /\ nreg = 0 /\ lock = 0 /\ left = MaxOps
        /\ ms = {New}

Feed(e) == ms' = UNION {Steps(m, e) : m \in ms}
Top(t) == frames[t][Len(frames[t])]
Set(t, f) == [frames EXCEPT ![t][Len(frames[t])] = f]
Pop(t) == [frames EXCEPT ![t] = SubSeq(@, 1, Len(@) - 1)]
Frame(op, r, o, k, tok, pc) == [op |-> op, r |-> r, o |-> o, k |-> k, tok |-> tok, pc |-> pc]

Refs(o) == Cardinality({x \in table : x.o = o}) + held[o]
           + Cardinality({t \in Threads : \E i \in DOMAIN frames[t] :
                LET f == frames[t][i] IN
                f.o = o /\ (f.pc = "free" \/ (f.op = "look" /\ f.pc = "ret" /\ Bug # "raw"))})
Gone(o) == \E m \in ms : o \in m.gone

Call(t) ==
  /\ frames[t] = <<>> /\ left > 0 /\ left' = left - 1
  /\ \/ /\ nreg < MaxRegs
        /\ \E k \in Kinds, p \in pool \cup {0} :
             LET r == nreg + 1 IN
             /\ nreg' = r /\ part' = Append(part, p) /\ pool' = pool \ {p}
             /\ frames' = [frames EXCEPT ![t] = <<Frame("reg", r, r, k, 0, "do")>>]
             /\ Feed([e |-> "reg_call", r |-> r, o |-> r, k |-> k])
             /\ UNCHANGED held
     \/ \E r \in pool :
          /\ pool' = pool \ {r}
          /\ frames' = [frames EXCEPT ![t] = <<Frame("drop", r, r, 0, 0, "do")>>]
          /\ Feed([e |-> "drop_call", r |-> r])
          /\ UNCHANGED <<nreg, part, held>>
     \/ \E r \in 1..nreg, k \in Kinds :
          LET tok == (CHOOSE m \in ms : TRUE).regs[r].tok IN
          /\ tok # 0
          /\ frames' = [frames EXCEPT ![t] = <<Frame("look", 0, 0, k, tok, "do")>>]
          /\ Feed([e |-> "look_call", t |-> t, tok |-> tok, k |-> k])
          /\ UNCHANGED <<nreg, part, pool, held>>
     \/ \E o \in 1..nreg :
          /\ held[o] > 0 /\ held' = [held EXCEPT ![o] = @ - 1]
          /\ frames' = [frames EXCEPT ![t] = <<Frame("rel", 0, o, 0, 0, "free")>>]
          /\ Feed([e |-> "rel", o |-> o])
          /\ UNCHANGED <<nreg, part, pool>>
  /\ UNCHANGED <<table, lock>>

Do(t) ==
  LET f == Top(t) IN
  /\ frames[t] # <<>> /\ f.pc = "do" /\ lock = 0
  /\ CASE f.op = "reg" ->
            LET tok == IF Bug = "reuse" THEN Cardinality(table) + 1 ELSE f.r IN
            /\ table' = (IF Bug = "late" THEN table ELSE table \cup {[tok |-> tok, k |-> f.k, o |-> f.o, r |-> f.r]})
            /\ frames' = Set(t, [f EXCEPT !.tok = tok, !.pc = "ret"])
            /\ UNCHANGED lock
       [] f.op = "drop" ->
            /\ table' = IF Bug = "leak" THEN table
                        ELSE IF Bug = "all" THEN {x \in table : x.o # f.o /\ \A y \in table : y.r = f.r => y.k # x.k}
                        ELSE {x \in table : x.r # f.r}
            /\ frames' = Set(t, [f EXCEPT !.pc = "free"])
            /\ lock' = IF Bug = "locked" THEN t ELSE lock
       [] f.op = "look" ->
            LET xs == {x \in table : x.tok = f.tok /\ (x.k = f.k \/ Bug = "kinds")} IN
            /\ frames' = Set(t, [f EXCEPT !.o = IF xs = {} THEN 0 ELSE (CHOOSE x \in xs : TRUE).o, !.pc = "ret"])
            /\ UNCHANGED <<table, lock>>
  /\ UNCHANGED <<part, held, pool, nreg, left, ms>>

Free(t) ==
  LET f == Top(t) IN
  /\ frames[t] # <<>> /\ f.pc = "free"
  /\ IF Refs(f.o) = 1 /\ ~Gone(f.o)
     THEN /\ Feed([e |-> "gone", o |-> f.o])
          /\ frames' = Set(t, [f EXCEPT !.pc = IF part[f.o] # 0 THEN "nest" ELSE "ret"])
     ELSE /\ frames' = Set(t, [f EXCEPT !.pc = "ret"])
          /\ UNCHANGED ms
  /\ UNCHANGED <<table, part, held, pool, nreg, lock, left>>

Nest(t) ==
  LET f == Top(t) r == part[f.o] IN
  /\ frames[t] # <<>> /\ f.pc = "nest"
  /\ Feed([e |-> "drop_call", r |-> r])
  /\ frames' = [frames EXCEPT ![t] = Append(Set(t, [f EXCEPT !.pc = "ret"])[t], Frame("drop", r, r, 0, 0, "do"))]
  /\ UNCHANGED <<table, part, held, pool, nreg, lock, left>>

Ret(t) ==
  LET f == Top(t) IN
  /\ frames[t] # <<>> /\ f.pc = "ret"
  /\ frames' = Pop(t)
  /\ lock' = IF lock = t THEN 0 ELSE lock
  /\ CASE f.op = "reg" ->
            /\ Feed([e |-> "reg_ret", r |-> f.r, tok |-> f.tok])
            /\ pool' = pool \cup {f.r}
            /\ UNCHANGED held
       [] f.op = "drop" -> Feed([e |-> "drop_ret", r |-> f.r]) /\ UNCHANGED <<pool, held>>
       [] f.op = "rel" -> UNCHANGED <<ms, pool, held>>
       [] f.op = "look" ->
            /\ Feed([e |-> "look_ret", t |-> t, o |-> f.o])
            /\ held' = (IF f.o = 0 THEN held ELSE [held EXCEPT ![f.o] = @ + 1])
            /\ UNCHANGED pool
  /\ UNCHANGED <<table, part, nreg, left>>

Quiet == \A t \in Threads : frames[t] = <<>>
Over == Quiet /\ left = 0 /\ UNCHANGED vars
Next == Over \/ \E t \in Threads : Call(t) \/ Do(t) \/ Free(t) \/ Nest(t) \/ Ret(t)
Spec == Init /\ [][Next]_vars
Right == ms # {}
Lives == Quiet => \E m \in ms : Steps(m, [e |-> "quiet"]) # {}
=============================================================================
