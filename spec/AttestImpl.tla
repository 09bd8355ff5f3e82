----------------------------- MODULE AttestImpl -----------------------------
(* The verifier as it is built: the evidence judged first, then the policy,   *)
(* then the token, its algorithm and signature; a record; the key.            *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
CONSTANTS Calls, Bug
VARIABLES m, mon
vars == <<m, mon>>
A == INSTANCE Attest

\* Three policies; the second is another way to write the first.
Policies == {"p", "p'", "q"}
Means(p) == IF p = "q" THEN "q" ELSE "p"

Init == m = [pc |-> "new", out |-> <<>>, calls |-> 0] /\ mon = A!New
Made ==
  /\ m.pc = "new"
  /\ \E allow \in SUBSET Policies :
       LET seq == CHOOSE q \in [1..Cardinality(allow) -> allow] : {q[i] : i \in DOMAIN q} = allow IN
       m' = [m EXCEPT !.pc = "ready", !.out = <<[e |-> "new", refs |-> "r", allow |-> seq]>>] @@ [allow |-> allow, v |-> [ev |-> ""], last |-> "none"]
Asked ==
  /\ m.pc = "ready" /\ m.calls < Calls
  /\ \E p \in Policies, parses, decodes, has, fresh \in BOOLEAN, answer \in {"ok", "failure", "error"}, alg \in {"-7", "-8", "none"}, key, by \in 0..2 :
       /\ ~parses => p = "q"
       /\ LET v == [e |-> "verify", ev |-> IF fresh THEN "f" ELSE "e", en |-> "n", policy |-> p, parses |-> parses, means |-> Means(p),
                    answer |-> answer, key |-> key, decodes |-> decodes, alg |-> alg, has |-> has, holds |-> IF has THEN "x" ELSE "", by |-> by] IN
          m' = [m EXCEPT !.pc = "judge", !.calls = @ + 1, !.v = v, !.out = <<v>>]
Fail == [m EXCEPT !.pc = "ready", !.v = [ev |-> ""], !.out = <<[e |-> "result", st |-> "FAILED", key |-> ""]>>]
Record == [e |-> "record", ev |-> m.v.ev, en |-> m.v.en, means |-> IF Bug = "other" THEN "p" ELSE m.v.means]
Judge ==
  /\ m.pc = "judge"
  /\ LET v == m.v
         cached == Bug = "cached" /\ m.last # "none"
         answer == IF cached THEN m.last ELSE v.answer
         a == [m EXCEPT !.pc = "policy", !.last = IF v.answer = "error" THEN @ ELSE v.answer,
                        !.out = IF cached THEN <<>> ELSE <<[e |-> "ask", ev |-> v.ev, en |-> v.en, refs |-> "r", now |-> TRUE]>>] IN
     m' = IF answer = "ok" \/ (answer = "failure" /\ Bug = "status") THEN a
          ELSE [a EXCEPT !.pc = "ready", !.v = [ev |-> ""], !.out = @ \o <<[e |-> "result", st |-> "FAILED", key |-> ""]>>]
Policy ==
  /\ m.pc = "policy"
  /\ LET v == m.v
         listed == IF Bug = "means" THEN \E p \in m.allow : Means(p) = Means(v.policy) ELSE v.policy \in m.allow IN
     m' = IF (v.parses \/ Bug = "parses") /\ (listed \/ Bug = "unlisted")
          THEN [m EXCEPT !.pc = "token", !.out = IF Bug = "early" THEN <<Record>> ELSE <<>>] ELSE Fail
Token ==
  /\ m.pc = "token"
  /\ LET v == m.v
         key == IF Bug = "enc" THEN IF v.key = 1 THEN 2 ELSE 1 ELSE v.key IN
     m' = IF v.decodes /\ (v.has \/ Bug = "nokey") /\ (v.alg = "-7" \/ Bug = "alg" \/ (v.alg = "none" /\ Bug = "noalg")) /\ ((v.by # 0 /\ v.by = key) \/ Bug = "unsigned")
          THEN [m EXCEPT !.pc = "ready", !.v = [ev |-> ""], !.out = (IF Bug \in {"early", "silent"} THEN <<>> ELSE <<Record>>) \o <<[e |-> "result", st |-> "OK", key |-> v.holds]>>]
          ELSE Fail

\* The monitor takes the events as they come.
Feed(S, q) == LET F[i \in 0..Len(q)] == IF i = 0 THEN S ELSE UNION {A!Steps(s, q[i]) : s \in F[i - 1]} IN F[Len(q)]
Next == /\ Made \/ Asked \/ Judge \/ Policy \/ Token
        /\ LET S == Feed({mon}, m'.out) IN mon' = IF S = {} THEN [mon EXCEPT !.at = "wrong"] ELSE CHOOSE s \in S : TRUE
Spec == Init /\ [][Next]_vars
Right == mon.at # "wrong"
=============================================================================
