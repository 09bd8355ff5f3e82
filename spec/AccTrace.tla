------------------------------ MODULE AccTrace ------------------------------
(* ex: the run used schedulers stepped by the driver, so calls never overlap. *)
EXTENDS TraceLib, Acc

VARIABLES l, ex
tvars == <<avars, l, ex>>
ev == Trace[l]
Is(e) == l <= Len(Trace) /\ ev.e = e /\ l' = l + 1
K(a) == a /\ UNCHANGED ex

TInit == l = 1 /\ AInit /\ ex = FALSE
TNext ==
  \/ /\ Is("reset") /\ ex' = ev.ex /\ st' = ANone /\ acc' = <<>> /\ comb' = 0 /\ can' = "no" /\ unobs' = FALSE
     /\ obs' = ANone /\ cur' = 0
  \/ Is("sched") /\ K(SchedCall(ev.t))
  \/ Is("schedret") /\ K(SchedRet(ev.t))
  \/ Is("gs") /\ K(GenStart(ev.t))
  \/ Is("ge") /\ K(GenEnd(ev.t))
  \/ Is("cs") /\ K(CombStart(ev.a, ev.t))
  \/ Is("ce") /\ K(CombEnd(ev.t))
  \/ Is("obs") /\ K(ObsCall(ev.k))
  \/ Is("obsret") /\ (IF ex THEN K(ObsRetExact(ev.k, ev.r))
                      ELSE IF ev.k \in DOMAIN obs /\ ~obs[ev.k].active THEN ev.r /\ UNCHANGED <<avars, ex>>  \* called already
                      ELSE K(ObsRetLoose(ev.k, ev.r)))
  \/ Is("fired") /\ K(Fired(ev.k))
  \/ Is("isidle") /\ K(IdleAnswer(ev.r, ex))
  \/ Is("result") /\ K(Result(ev.v))
  \/ Is("cancel") /\ K(CancelCall)
  \/ Is("cancelret") /\ K(CancelRet)
  \* All schedulers have been waited for: every task that is not delayed has been folded.
  \/ Is("waited") /\ K((can = "no" => \A t \in DOMAIN st : t \in SeqToSet(ev.delayed) \/ st[t].s = "done") /\ UNCHANGED avars)
  \/ Is("done") /\ K(Settled /\ UNCHANGED avars)

TSpec == TInit /\ [][TNext]_tvars
Constr == Track(l)
Post == Report
=============================================================================
