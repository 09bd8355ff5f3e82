------------------------------- MODULE Attest -------------------------------
(* When the verifier hands out a key of the server.  A verifier is made with  *)
(* reference values and the digests of the policies allowed.  It is asked     *)
(* with a policy, the evidence about the server, and a signed token.          *)
(*   new     made: reference values, names of the policies allowed            *)
(*   verify  asked: what is given and what it is worth                        *)
(*   ask     the verifier has the evidence judged                             *)
(*   record  the verifier records a success                                   *)
(*   result  the verifier answers                                             *)
EXTENDS Naturals, Integers, Sequences, FiniteSets

New == [at |-> "none", refs |-> "", allow |-> {}, v |-> [ev |-> ""], asked |-> FALSE, kept |-> FALSE]

\* The evidence holds; the policy is one and is allowed as it stands, byte for
\* byte; the token is one, of the right kind, holds a key, and is signed with
\* the key that the evidence vouches for.
Good(s, v) ==
  /\ v.answer = "ok"
  /\ v.parses /\ v.policy \in s.allow
  /\ v.decodes /\ v.alg = "-7" /\ v.has
  /\ v.by # 0 /\ v.by = v.key

Steps(s, e) ==
  CASE e.e = "new" ->
         IF s.at = "none" THEN {[s EXCEPT !.at = "ready", !.refs = e.refs, !.allow = {e.allow[i] : i \in DOMAIN e.allow}]} ELSE {}
    [] e.e = "verify" ->
         IF s.at = "ready" THEN {[s EXCEPT !.at = "busy", !.v = e, !.asked = FALSE, !.kept = FALSE]} ELSE {}
    [] e.e = "ask" ->
         \* Always about this evidence, these reference values, this moment.
         IF s.at = "busy" /\ e.ev = s.v.ev /\ e.en = s.v.en /\ e.refs = s.refs /\ e.now THEN {[s EXCEPT !.asked = TRUE]} ELSE {}
    [] e.e = "record" ->
         \* Once, for successes only, holding what was verified.
         IF s.at = "busy" /\ s.asked /\ ~s.kept /\ Good(s, s.v) /\ e.ev = s.v.ev /\ e.en = s.v.en /\ e.means = s.v.means
         THEN {[s EXCEPT !.kept = TRUE]} ELSE {}
    [] e.e = "result" ->
         IF s.at # "busy" THEN {}
         ELSE IF (IF Good(s, s.v) THEN e.st = "OK" /\ e.key = s.v.holds /\ s.asked /\ s.kept
                                  ELSE e.st # "OK" /\ ~s.kept)
              THEN {[s EXCEPT !.at = "ready", !.v = [ev |-> ""], !.asked = FALSE, !.kept = FALSE]} ELSE {}
    [] OTHER -> {}
=============================================================================
