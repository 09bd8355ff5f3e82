---------------------------- MODULE ShamirTrace ----------------------------
(* Events are calls on the real code with their results.                     *)
EXTENDS TraceLib

VARIABLES l, cur
S == INSTANCE Shamir WITH P <- 5, MaxN <- 4, MaxNodes <- 4, inst <- cur
ev == Trace[l]
Is(e) == l <= Len(Trace) /\ ev.e = e /\ l' = l + 1
T0(q) == [i \in 0..Len(q) - 1 |-> q[i + 1]]
T00(q) == [i \in 0..Len(q) - 1 |-> T0(q[i + 1])]

TInit == l = 1 /\ cur = <<>>
TNext ==
  \/ Is("reset") /\ cur' = <<>>
  \* A secret has been shared among n holders with threshold t.
  \/ Is("share") /\ ev.num = ev.n /\ cur' = [n |-> ev.n, t |-> ev.t, secret |-> ev.secret]
  \* The shares of the given holders restore the secret iff there are enough.
  \/ /\ Is("recon") /\ UNCHANGED cur
     /\ IF Len(ev.set) >= cur.t THEN ev.ok /\ ev.secret = cur.secret
        ELSE ~ev.ok
  \* The same through AesKey::CreateFromShares; legacy keys are normalised.
  \/ /\ Is("key") /\ UNCHANGED cur
     /\ IF Len(ev.set) >= cur.t
        THEN ev.ok /\ ev.key = (IF Len(cur.secret) = 32 THEN cur.secret ELSE S!Legacy(S!Pad(cur.secret, 17)))
        ELSE ~ev.ok
  \/ /\ Is("graph") /\ UNCHANGED cur
     /\ ev.rn = ev.n /\ ev.rd = ev.d /\ ev.rt = ev.t
     /\ LET nb == [i \in 0..ev.n - 1 |-> ev.nb[i + 1]] IN
        /\ S!SoundGraph(ev.n, ev.d, nb, T00(ev.idx), T00(ev.adj))
        /\ S!SoundOrder(ev.n, T00(ev.adj), T00(ev.out))

TSpec == TInit /\ [][TNext]_<<l, cur>>
Constr == Track(l)
Post == Report
=============================================================================
