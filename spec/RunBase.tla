------------------------------ MODULE RunBase ------------------------------
(* What a run of the client works with: eligibility policies, tasks, results. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

Range(s) == {s[i] : i \in DOMAIN s}
Sel(s, T(_)) == SelectSeq(s, T)
Last(s) == s[Len(s)]

\* ---- eligibility ------------------------------------------------------------
Passes(p, n, f) ==
  CASE p.kind = "da" -> p.make = 0 /\ p.have >= p.min
    [] p.kind = "tf" -> f.tflite /\ p.tf = "ok" /\ n \in Range(p.pass)
    [] OTHER -> FALSE
Eligible(t, sp, f) == \A i \in Range(t.pols) : Passes(sp.pols[i + 1], t.n, f)
Multiple == 2
Weighed(s) == s.eet = "task" /\ s.spec.has /\ s.spec.tasks # <<>>
\* The tasks to be asked for at once.
AskMany(s) ==
  IF ~s.spec.has THEN <<>>
  ELSE [i \in 1..Len(Sel(s.spec.tasks, LAMBDA t : t.mode = Multiple /\ (Weighed(s) => Eligible(t, s.spec, s.f)))) |->
         Sel(s.spec.tasks, LAMBDA t : t.mode = Multiple /\ (Weighed(s) => Eligible(t, s.spec, s.f)))[i].n]
AskOne(s) == ~s.spec.has \/ \E i \in DOMAIN s.spec.tasks : s.spec.tasks[i].mode # Multiple
\* What the server is told about the tasks it may give one of.
ModeOf(s, n) == LET i == CHOOSE i \in DOMAIN s.spec.tasks : s.spec.tasks[i].n = n IN s.spec.tasks[i].mode
Told(s, info) ==
  /\ \A i \in DOMAIN info : \E j \in DOMAIN s.spec.tasks : s.spec.tasks[j].n = info[i].n
  /\ LET one == Sel(s.spec.tasks, LAMBDA t : t.mode # Multiple)
         got == Sel(info, LAMBDA w : ModeOf(s, w.n) # Multiple)
         rest == Sel(info, LAMBDA w : ModeOf(s, w.n) = Multiple) IN
     /\ Len(got) = Len(one)
     /\ \A i \in DOMAIN one : got[i].n = one[i].n /\ got[i].w = IF Eligible(one[i], s.spec, s.f) THEN 1 ELSE 0
     /\ \A i \in DOMAIN rest : rest[i].w = 0

\* ---- tasks --------------------------------------------------------------------
Bits(ty) == CASE ty = "int8" -> 7 [] ty = "uint8" -> 8 [] ty = "int16" -> 15 [] ty = "uint16" -> 16
              [] ty = "int32" -> 31 [] ty = "int64" -> 62 [] OTHER -> 0
\* The plan says what it takes to run it.
Sound(t) == t.defect = ""
\* The model can be run (given the files it needs).
Runs(t, f) == t.kind = "tf" /\ Sound(t) /\ f.tflite
Answered(o, f) == o.there /\ o.ty = o.want /\ (f.lw => o.ty \notin {"bool", "bytes"})
Queried(q, f) == q.make = 0 /\ q.error = 0 /\ q.parses /\ \A i \in DOMAIN q.outs : Answered(q.outs[i], f)
\* There is a result to send, if the files needed could be had.
Good(t, f, ran) ==
  IF t.kind = "eq" THEN Sound(t) /\ \A i \in DOMAIN t.queries : Queried(t.queries[i], f)
  ELSE /\ Runs(t, f) /\ ran = "OK"
       /\ \A i \in DOMAIN t.outs : Bits(t.outs[i].ty) # 0
       /\ t.out => t.output # ""
       /\ f.lw => f.untie
NeedsIn(t) == t.kind = "tf"

RECURSIVE Values(_, _)
Values(v, i) == IF i > Len(v) THEN "" ELSE (IF i = 1 THEN "" ELSE ",") \o ToString(v[i]) \o Values(v, i + 1)
Kept(ty) == IF ty = "bytes" THEN "string" ELSE ty
Slice(o) == o.n \o "|" \o Kept(o.ty) \o "|" \o Values(o.vals, 1)
RECURSIVE Slices(_, _)
Slices(q, i) == IF i > Len(q) THEN <<>> ELSE [j \in DOMAIN q[i].outs |-> Slice(q[i].outs[j])] \o Slices(q, i + 1)
Tensor(o) == [n |-> o.n, bits |-> Bits(o.ty), dims |-> o.dims, vals |-> o.vals]
Result(t, f, e) ==
  /\ Len(e.tensors) = Len(t.outs)
  /\ \A i \in DOMAIN t.outs :
       LET x == e.tensors[i] IN Tensor(t.outs[i]) = [n |-> x.n, bits |-> x.bits, dims |-> x.dims, vals |-> x.vals]
  /\ IF t.kind = "eq"
       THEN IF f.lw THEN e.fc /\ ~e.ck /\ e.fcs = Slices(t.queries, 1)
                    ELSE e.ck /\ ~e.fc /\ e.plain = "" /\ e.slices = Slices(t.queries, 1)
       ELSE ~e.fc /\ e.ck = t.out /\ e.plain = t.output
Workable(t) == t.fetch = 0 /\ t.defect # "parse"
============================================================================
