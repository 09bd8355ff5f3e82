---------------------------- MODULE OpStatsTrace ----------------------------
(* cfg: retention and size limit; runs: what each run has logged so far.     *)
EXTENDS TraceLib, OpStats

VARIABLES l, cfg, log
tvars == <<ovars, l, cfg, log>>
ev == Trace[l]
Is(e) == l <= Len(Trace) /\ ev.e = e /\ l' = l + 1
Keep == UNCHANGED <<cfg, log>>
NoLog == [x \in {} |-> <<>>]

\* before/after as seen by the update function; a run's update keeps to its own entry.
Proper == ev.r # "" => /\ Committed(ev.before, ev.after, ev.r, ev.after[Len(ev.after)].k)
                       /\ \A p \in {log[ev.r][i].p : i \in DOMAIN log[ev.r]} \cup {ev.evs[i].p : i \in DOMAIN ev.evs} :
                             SelectSeq(ev.evs, LAMBDA x : x.p = p) = SelectSeq(log[ev.r], LAMBDA x : x.p = p)

TInit == l = 1 /\ OInit /\ cfg = [ttl |-> 0, max |-> 0] /\ log = NoLog
TNext ==
  \/ /\ Is("reset") /\ cfg' = [ttl |-> ev.ttl, max |-> ev.max] /\ log' = NoLog
     /\ db' = <<>> /\ ett' = -1 /\ lost' = -1 /\ bad' = FALSE /\ open' = FALSE
  \/ Is("open") /\ Keep /\ (IF ev.ret = "OK" THEN OpenOk(ev.now)
                            ELSE OpenBusy \/ (ev.f /\ OpenCut(ev.now)))
  \/ Is("open2") /\ Keep /\ (IF ev.ret = "OK" THEN ~open ELSE open) /\ UNCHANGED ovars  \* from elsewhere, closed again
  \/ Is("close") /\ Keep /\ Close
  \/ Is("exit") /\ Keep /\ open' = FALSE /\ UNCHANGED <<db, ett, lost, bad>>
  \/ Is("corrupt") /\ Keep /\ Corrupt
  \/ Is("read") /\ Keep /\ (IF ev.ret = "OK" THEN ReadOk(ev.db, ev.ett)
                            ELSE (ev.f \/ bad) /\ (ReadFails(ev.now) \/ (ev.f /\ UNCHANGED ovars)))
  \/ /\ Is("run") /\ log' = [x \in DOMAIN log \cup {ev.r} |-> IF x = ev.r THEN <<>> ELSE log[x]] /\ UNCHANGED <<ovars, cfg>>
  \/ Is("log") /\ log' = [log EXCEPT ![ev.r] = Append(@, ev.k)] /\ UNCHANGED <<ovars, cfg>>
  \/ /\ Is("tx") /\ Keep
     /\ ev.ret = "OK" => ev.called
     /\ ev.called => Proper
     /\ IF ev.ret = "OK"
        THEN ev.rret = "OK" /\ Update(ev.before, ev.after, ev.db, ev.ett, ev.now, cfg.ttl, cfg.max, ev.f)
        ELSE ev.f /\ UpdateCut(ev.before, ev.after, ev.now, cfg.ttl, cfg.max, ev.f)
  \/ /\ Is("died") /\ Keep
     /\ IF ev.op = "open" THEN OpenCut(ev.now)
        ELSE IF ev.op = "read" THEN ReadFails(ev.now) \/ UNCHANGED ovars
        ELSE (ev.called => Proper) /\ UpdateCut(ev.before, ev.after, ev.now, cfg.ttl, cfg.max, TRUE)

TSpec == TInit /\ [][TNext]_tvars
Constr == Track(l)
Post == Report
=============================================================================
