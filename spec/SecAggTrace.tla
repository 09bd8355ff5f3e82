---------------------------- MODULE SecAggTrace -----------------------------
(* Recorded executions of the real server and clients against the state      *)
(* machines.  Focus selects what is compared:                                *)
(*   C01 results   C02 disclosed shares   C03 server   C04 client            *)
EXTENDS SecAggServer, SecAggClient, TraceLib

Focus == IOEnv.FOCUS

VARIABLES l, srv, cl, run, inputs
vars == <<l, srv, cl, run, inputs>>

ev == Trace[l]
Is(e) == l <= Len(Trace) /\ ev.e = e /\ l' = l + 1

TInit == l = 1 /\ srv = <<>> /\ cl = <<>> /\ run = <<>> /\ inputs = <<>>

Reset ==
  /\ Is("reset")
  /\ srv' = NewServer(ev.n, ev.min, ev.deg, ev.thr, ev.async)
  /\ cl' = [i \in 0..(ev.n - 1) |-> NewClient(ev.deg, ev.thr)]
  /\ inputs' = [i \in 0..(ev.n - 1) |-> <<>>]
  /\ run' = [mods |-> ev.mods, lens |-> ev.lens, result |-> FALSE]

(* ------------------------------ server ------------------------------ *)
Idles(x) == IF x = "T" THEN {TRUE} ELSE IF x = "F" THEN {FALSE} ELSE BOOLEAN

ToSet(q) == {q[k] : k \in 1..Len(q)}

\* Neighbour lists as sent out.
SentNb(s, out) == [i \in Ids(s) |->
  IF \E k \in 1..Len(out) : out[k].to = i /\ out[k].k = "skq"
  THEN out[CHOOSE k \in 1..Len(out) : out[k].to = i /\ out[k].k = "skq"].nbk
  ELSE <<>>]

Plain(o) ==
  CASE o.k = "skq" -> [to |-> o.to, k |-> "skq"]
    [] o.k = "umq" -> [to |-> o.to, k |-> "umq", dead |-> ToSet(o.dead)]
    [] OTHER -> o
OutOk(res) ==
  /\ Len(ev.out) = Cardinality(res.out)
  /\ {Plain(ev.out[k]) : k \in 1..Len(ev.out)} = res.out
  /\ \A k \in 1..Len(ev.out) : ev.out[k].k = "umq" => Len(ev.out[k].dead) = Cardinality(ToSet(ev.out[k].dead))
  /\ \A j, k \in 1..Len(ev.out) : ev.out[j].k = "skq" /\ ev.out[k].k = "skq" =>
        ev.out[j].sid = ev.out[k].sid /\ Len(ev.out[j].sid) = 32

ObsOk(s, o, idle) ==
  LET e == Obs(s, idle) IN
  /\ \A f \in DOMAIN e \ {"dead"} : o[f] = e[f]
  /\ ToSet(o.dead) = e.dead
  /\ o.ab = (s.round = "ABORTED") /\ o.co = (s.round = "COMPLETED") /\ o.err = (s.round = "ABORTED")

Did(res) ==
  /\ srv' = res.s
  /\ (Focus = "C03" => ev.ret = res.ret /\ OutOk(res) /\ \E b \in Idles(ev.i1) : ObsOk(res.s, ev.o, b))
  /\ (Focus = "C01" => ev.o.round = res.s.round)
  /\ (Focus = "C02" => \A k \in 1..Len(ev.out) : ev.out[k].k = "umq" =>
        \E m \in res.out : m.to = ev.out[k].to /\ m.k = "umq" /\ ToSet(ev.out[k].dead) \subseteq m.dead)

ServerStep ==
  /\ Is("s") /\ UNCHANGED <<cl, inputs>>
  /\ IF Focus = "C04" THEN UNCHANGED <<srv, run>>
     ELSE \E idle \in Idles(ev.i0) :
       \/ ev.op = "recv" /\ Did(Recv(srv, ev.id, ev.m, idle)) /\ UNCHANGED run
       \/ ev.op = "abortc" /\ Did(AbortClient(srv, ev.id, ev.tell)) /\ UNCHANGED run
       \/ ev.op = "abort" /\ Did(Abort(srv)) /\ UNCHANGED run
       \/ ev.op = "bg" /\ Did([s |-> srv, ret |-> "OK", out |-> {}]) /\ UNCHANGED run
       \/ /\ ev.op = "proceed" /\ UNCHANGED run
          /\ LET nb == SentNb(srv, ev.out)
                 adv == srv.round = "R0" /\ Ready(srv, idle) /\ ~MustAbort(srv)
             IN /\ Did(Proceed(srv, idle, nb))
                /\ (adv => SoundGraph(srv, nb))
       \/ /\ ev.op = "result" /\ Did(Result(srv))
          /\ run' = [run EXCEPT !.result = @ \/ ev.ret = "OK"]

(* ---- C01: the result is the sum of the accepted inputs ---- *)
B == 16777216
Add3(a, b) == <<a[1] + b[1], a[2] + b[2], a[3] + b[3]>>
Norm(a) == LET c1 == a[1] \div B
               c2 == (a[2] + c1) \div B
           IN <<a[1] % B, (a[2] + c1) % B, a[3] + c2>>
Less(a, b) == a[3] < b[3] \/ (a[3] = b[3] /\ (a[2] < b[2] \/ (a[2] = b[2] /\ a[1] < b[1])))
Times(k, a) == <<k * a[1], k * a[2], k * a[3]>>
RECURSIVE SumOver(_, _, _)
SumOver(S, v, p) == IF S = {} THEN <<0, 0, 0>>
  ELSE LET i == CHOOSE x \in S : TRUE IN Add3(inputs[i][v][p], SumOver(S \ {i}, v, p))

ResultOk == LET S == IncludedIds(srv) IN
  /\ Len(ev.val) = Len(run.mods)
  /\ \A i \in S : inputs[i] # <<>>
  /\ \A v \in 1..Len(run.mods) :
       /\ Len(ev.val[v]) = run.lens[v]
       /\ \A p \in 1..run.lens[v] :
            /\ Less(ev.val[v][p], run.mods[v])
            /\ LET sum == Norm(SumOver(S, v, p)) IN
               \E k \in 0..(Cardinality(S) - 1) : sum = Norm(Add3(ev.val[v][p], Times(k, run.mods[v])))

ResultGuard == (Focus = "C01" /\ l <= Len(Trace) /\ ev.e = "s" /\ ev.op = "result") =>
   /\ (ev.ret = "OK") = (srv.round = "COMPLETED" /\ ~srv.taken)
   /\ (ev.ret = "OK" => ResultOk)

(* ------------------------------ clients ------------------------------ *)
Has1(o, f) == f \in DOMAIN o
PlainC(o) ==
  CASE o.k = "shr" -> [k |-> "shr", pr |-> o.pr]
    [] o.k \in {"adv", "msk"} -> [k |-> o.k]
    [] OTHER -> o

\* Contents that the state machine does not determine.
ContentOk(o) ==
  /\ o.k = "adv" => o.ok
  /\ o.k = "msk" => o.ok /\ (Has1(o, "hid") => o.hid)
  /\ (o.k = "shr" /\ Has1(o, "dec")) =>
       o.dist /\ o.rec /\ o.sec /\ \A p \in 1..Len(o.dec) : o.dec[p]

\* Only messages that carry secrets.
Secret(q) == SelectSeq(q, LAMBDA o : o.k \in {"shr", "msk", "unm"})
MapC(q) == [k \in 1..Len(q) |-> PlainC(q[k])]

Matches(res) ==
  CASE Focus = "C04" -> /\ ev.ret = res.ret
                        /\ MapC(ev.out) = res.out
                        /\ ev.st = StateName(res.c)
                        /\ ev.ab = (res.c.r = "ABORTED") /\ ev.co = (res.c.r = "COMPLETED")
    [] Focus = "C02" -> /\ MapC(Secret(ev.out)) = Secret(res.out)
                        /\ \A k \in 1..Len(ev.out) : ContentOk(ev.out[k])
    [] OTHER -> TRUE

Outcomes(c) ==
  CASE ev.op = "start" -> {Start(c)}
    [] ev.op = "input" -> {SetInput(c, ev.ok)}
    [] ev.op = "abort" -> {CAbort(c)}
    [] ev.op = "recv" -> {CRecv(c, ev.m)}
    [] ev.op = "recvab" -> CRecvAborted(c, ev.m)
    [] ev.op = "inputab" -> CInputAborted(c, ev.ok)

ClientStep ==
  /\ Is("c") /\ UNCHANGED <<srv, run>>
  /\ IF Focus = "C03" THEN UNCHANGED <<cl, inputs>>
     ELSE \E res \in Outcomes(cl[ev.id]) :
       /\ Matches(res)
       /\ cl' = [cl EXCEPT ![ev.id] = res.c]
       /\ inputs' = IF ev.op = "input" /\ ev.ret = "OK" /\ ev.ok THEN [inputs EXCEPT ![ev.id] = ev.val] ELSE inputs

(* A session without faults ends with the sum. *)
End ==
  /\ Is("end") /\ UNCHANGED <<srv, cl, run, inputs>>
  /\ (Focus = "C01" /\ ev.honest => run.result)

TNext == ResultGuard /\ (Reset \/ ServerStep \/ ClientStep \/ End)
TSpec == TInit /\ [][TNext]_vars

Constr == Track(l)
Post == Report
=============================================================================
