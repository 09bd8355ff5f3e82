----------------------------- MODULE CacheImpl -----------------------------
(* The cache's algorithm over a directory of files and a manifest file, one  *)
(* file system change per step, with process crashes and failing steps       *)
(* anywhere.  ent is what the disk would serve; it is taken when a call      *)
(* returns or is cut short, and must change only as Cache allows.            *)
EXTENDS Cache, Integers, Sequences, TLC

CONSTANTS Ids, Sizes, Ages, Max, Puts, Gets, Opens, Faults
VARIABLES files,   \* name -> [v, full]; the partial file of id x is P(x)
          man,     \* manifest on disk: [s: "none"|"bad"|"ok", c: id -> entry]
          m,       \* local copy of the manifest
          del,     \* files still to be removed by the cleanup
          pc, op, now, left, faults
ivars == <<files, man, m, del, pc, op, now, left, faults, ent, dirty, refused>>

P(x) == x \o ".partial"
NoOp == [k |-> "-"]
Entry(v, sz, exp, acc) == [v |-> v, sz |-> sz, exp |-> exp, acc |-> acc]
View(fs, mf) ==
  LET ids == IF mf.s = "ok" THEN {x \in DOMAIN mf.c : x \in DOMAIN fs} ELSE {}
  IN [x \in ids |-> [d |-> IF fs[x].full THEN fs[x].v ELSE 0, m |-> mf.c[x].v, sz |-> mf.c[x].sz,
                     exp |-> mf.c[x].exp, acc |-> mf.c[x].acc]]
FileSize(f) == IF f.full THEN f.sz ELSE 0
RECURSIVE Bytes(_, _)
Bytes(fs, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN FileSize(fs[x]) + Bytes(fs, S \ {x})

IInit == /\ CInit /\ files = CNone /\ man = [s |-> "none", c |-> CNone] /\ m = CNone /\ del = {}
         /\ pc = "closed" /\ op = NoOp /\ now = 1 /\ faults = 0
         /\ left = [put |-> Puts, get |-> Gets, open |-> Opens]

Quiet == UNCHANGED cvars
\* The call ends: ok, or failed without a fault, or cut short.
Ends(how, next) == /\ pc' = next /\ op' = [op EXCEPT !.how = how] /\ ent' = View(files', man')
                   /\ dirty' = (how \in {"cut", "refused"} \/ (dirty /\ ~(op.k = "open" /\ how = "ok")))
                   /\ refused' = (how = "refused" \/ (how # "cut" /\ op.k # "open" /\ refused))

Use(k) == left[k] > 0 /\ left' = [left EXCEPT ![k] = @ - 1]
Tick == now' \in {now, now + 1}
Open ==
  /\ pc = "closed" /\ Use("open") /\ Tick /\ op' = [k |-> "open", how |-> "?", now |-> now']
  /\ pc' = (IF man.s = "none" THEN "fresh" ELSE "read") /\ UNCHANGED <<files, man, m, del, faults>> /\ Quiet
Close == /\ pc = "idle" /\ pc' = "closed" /\ UNCHANGED <<files, man, m, del, op, now, left, faults>> /\ Quiet
Put(id, sz, age) ==
  /\ pc = "idle" /\ Use("put") /\ Tick
  /\ op' = [k |-> "put", how |-> "?", id |-> id, v |-> left.put, sz |-> sz, age |-> age, now |-> now']
  /\ pc' = (IF Big(sz, Max) THEN "big" ELSE "read") /\ UNCHANGED <<files, man, m, del, faults>> /\ Quiet
Get(id, age) ==
  /\ pc = "idle" /\ Use("get") /\ Tick
  /\ op' = [k |-> "get", how |-> "?", id |-> id, age |-> age, now |-> now']
  /\ pc' = "read" /\ UNCHANGED <<files, man, m, del, faults>> /\ Quiet

K == UNCHANGED <<now, left, faults>>
TooBig == pc = "big" /\ UNCHANGED <<files, man, m, del>> /\ K /\ Ends("big", "idle")
Fresh == pc = "fresh" /\ man' = [s |-> "ok", c |-> CNone] /\ pc' = "read" /\ UNCHANGED <<files, m, del, op>> /\ Quiet /\ K
Read ==
  /\ pc = "read" /\ K
  /\ IF man.s # "ok"
     THEN /\ man' = [s |-> "none", c |-> CNone] /\ UNCHANGED <<files, m, del>>
          /\ IF op.k = "open" THEN Ends("refused", "closed") ELSE Ends("failed", "idle")
     ELSE IF op.k = "get"
     THEN IF op.id \notin DOMAIN man.c \/ op.id \notin DOMAIN files
          THEN UNCHANGED <<files, man, m, del>> /\ Ends("miss", "idle")
          ELSE /\ m' = [man.c EXCEPT ![op.id].acc = op.now, ![op.id].exp = IF op.age < 0 THEN @ ELSE op.now + op.age]
               /\ pc' = "man" /\ UNCHANGED <<files, man, del, op>> /\ Quiet
     ELSE LET keep == {x \in DOMAIN man.c : man.c[x].exp >= op.now /\ x \in DOMAIN files}
          IN /\ m' = Restrict(man.c, keep) /\ del' = DOMAIN files \ keep /\ pc' = "del" /\ UNCHANGED <<files, man, op>> /\ Quiet
Del ==
  /\ pc = "del" /\ K /\ Quiet /\ UNCHANGED <<man, m, op>>
  /\ IF del = {} THEN pc' = "lru" /\ UNCHANGED <<files, del>>
     ELSE \E x \in del : del' = del \ {x} /\ files' = Without(files, {x}) /\ pc' = pc
Room == IF op.k = "put" THEN Max - op.sz ELSE Max
Lru ==
  /\ pc = "lru" /\ K /\ Quiet /\ UNCHANGED <<man, del, op>>
  /\ IF Total(m) <= Room THEN pc' = (IF op.k = "put" THEN "rm" ELSE "man") /\ UNCHANGED <<files, m>>
     ELSE \E x \in DOMAIN m : /\ \A y \in DOMAIN m : m[x].acc <= m[y].acc
                              /\ m' = Without(m, {x}) /\ files' = Without(files, {x}) /\ pc' = pc
Rm ==
  /\ pc = "rm" /\ K /\ Quiet /\ files' = Without(files, {op.id})
  /\ m' = With(m, op.id, Entry(op.v, op.sz, op.now + op.age, op.now))
  /\ pc' = "man" /\ UNCHANGED <<man, del, op>>
\* The manifest file is not replaced atomically.
Man1 == pc = "man" /\ K /\ Quiet /\ man' = [s |-> "bad", c |-> CNone] /\ pc' = "man2" /\ UNCHANGED <<files, m, del, op>>
Man2 ==
  /\ pc = "man2" /\ K /\ man' = [s |-> "ok", c |-> m] /\ UNCHANGED <<files, m, del>>
  /\ IF op.k = "put" THEN pc' = "part" /\ UNCHANGED op /\ Quiet ELSE Ends("ok", "idle")
Part1 == /\ pc = "part" /\ K /\ Quiet /\ files' = With(files, P(op.id), [v |-> op.v, full |-> FALSE, sz |-> op.sz])
         /\ pc' = "part2" /\ UNCHANGED <<man, m, del, op>>
Part2 == /\ pc = "part2" /\ K /\ Quiet /\ files' = [files EXCEPT ![P(op.id)].full = TRUE]
         /\ pc' = "ren" /\ UNCHANGED <<man, m, del, op>>
Ren == /\ pc = "ren" /\ K /\ files' = With(Without(files, {P(op.id)}), op.id, files[P(op.id)])
       /\ UNCHANGED <<man, m, del>> /\ Ends("ok", "idle")

Fault == faults < Faults /\ faults' = faults + 1
Crash == /\ pc \notin {"idle", "closed", "big"} /\ Fault /\ UNCHANGED <<files, man, m, del, now, left>> /\ Ends("cut", "closed")
\* A step fails: the call returns an error; a manifest that could not be written is deleted.
IoFail ==
  /\ pc \in {"fresh", "del", "lru", "rm", "man", "man2", "part", "part2", "ren"} /\ Fault
  /\ man' = IF pc \in {"fresh", "man", "man2"} THEN [s |-> "none", c |-> CNone] ELSE man
  /\ files' \in {files, Without(files, {P(op.id) : i \in IF op.k = "put" THEN {1} ELSE {}})}
  /\ UNCHANGED <<m, del, now, left>> /\ Ends("cut", IF op.k = "open" THEN "closed" ELSE "idle")

INext == \/ Open \/ Close \/ TooBig \/ Fresh \/ Read \/ Del \/ Lru \/ Rm \/ Man1 \/ Man2 \/ Part1 \/ Part2 \/ Ren
         \/ Crash \/ IoFail
         \/ \E id \in Ids : \/ \E sz \in Sizes, age \in Ages : Put(id, sz, age)
                            \/ \E age \in Ages \cup {-1} : Get(id, age)
ISpec == IInit /\ [][INext]_ivars

Val == [d |-> op'.v, m |-> op'.v, sz |-> op'.sz, exp |-> op'.now + op'.age, acc |-> op'.now]
N == Cardinality(DOMAIN files')
B == Bytes(files', DOMAIN files')
Step ==
  IF op'.how = "cut"
  THEN CASE op.k = "open" -> OpenCut [] op.k = "put" -> PutCut(op.id, Val) [] op.k = "get" -> GetCut(op.id, op.now, op.age)
  ELSE CASE op.k = "open" /\ op'.how = "ok" -> OpenOk(op.now, Max, N, B)
         [] op.k = "open" /\ op'.how = "refused" -> OpenFails
         [] op.k = "put" /\ op'.how = "ok" -> PutOk(op.id, Val, op.now, Max, N, B)
         [] op.k = "put" /\ op'.how = "big" -> PutTooBig(op.sz, Max, N, B)
         [] op.k = "put" /\ op'.how = "failed" -> FailDirty(Some(ent))
         [] op.k = "get" /\ op'.how = "ok" -> GetHit(op.id, ent[op.id].d, ent[op.id].m, op.now, op.age, N, B, Max)
         [] op.k = "get" /\ op'.how = "miss" -> GetMiss(op.id, op.now, N, B, Max)
         [] op.k = "get" /\ op'.how = "failed" -> FailDirty({ent, Without(ent, {op.id})})
\* Every end of a call is a step of Cache, and nothing else changes ent.
Refines == [][IF op # NoOp /\ op.how = "?" /\ op' # op THEN Step ELSE UNCHANGED cvars]_ivars
\* Whatever happened, the contents served belong to the metadata served with them.
Whole == \A x \in DOMAIN ent : ent[x].d = ent[x].m
Bounded == ~dirty /\ pc = "idle" => Total(ent) <= Max
=============================================================================
