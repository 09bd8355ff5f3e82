------------------------------ MODULE Envelope ------------------------------
(* Sealed messages.  A message is sealed under a key of its own, and that key *)
(* is wrapped for a recipient; an intermediary can wrap it again for another. *)
(* Opening succeeds exactly when every piece is the genuine one and belongs   *)
(* to the others.  Signatures verify only for what was signed, by whom.       *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Empty == [x \in {} |-> 0]
\* seals: [aad, m]; wraps: [of: seal, to, aad]; x: public keys; sigs: [k, m]; live: messages that were sealed
New == [seals |-> Empty, wraps |-> Empty, x |-> Empty, mid |-> {}, sigs |-> Empty]

RecipientSteps(s, e) ==
  IF e.d \in DOMAIN s.x THEN {}
  ELSE {[s EXCEPT !.x = (e.d :> e.x) @@ @, !.mid = IF e.mid THEN @ \cup {e.d} ELSE @]}
\* A token carries the recipient's one key, and is signed as a whole.
TokenSteps(s, e) ==
  IF e.d \notin DOMAIN s.x THEN {}
  ELSE IF e.fails THEN (IF e.st # "OK" THEN {s} ELSE {})
  ELSE IF /\ e.st = "OK" /\ e.out.ok /\ e.out.alg = e.galg /\ e.out.sig = e.gsig /\ e.out.over
          /\ e.out.kalg = "-65537" /\ e.out.crv = "4" /\ s.x[e.d] \in {"", e.out.x}
          /\ \A d \in DOMAIN s.x \ {e.d} : s.x[d] # e.out.x
       THEN {[s EXCEPT !.x[e.d] = e.out.x]} ELSE {}
SealSteps(s, e) ==
  IF (e.st = "OK") # (e.tok = "good") THEN {}
  ELSE IF e.st # "OK" THEN {s}
  ELSE {[s EXCEPT !.seals = (e.c :> [aad |-> e.aad, m |-> e.m]) @@ @, !.wraps = (e.w :> [of |-> e.c, to |-> e.d, aad |-> e.aad]) @@ @]}

Genuine(p) == ~p.alt
\* the key inside a wrapping comes out
Unwraps(s, d, esk, enc, kaad) ==
  /\ Genuine(esk) /\ Genuine(enc) /\ esk.of = enc.of /\ esk.of \in DOMAIN s.wraps
  /\ s.wraps[esk.of].to = d /\ s.wraps[esk.of].aad = kaad
Opens(s, e) ==
  /\ Unwraps(s, e.d, e.esk, e.enc, e.kaad)
  /\ Genuine(e.ct) /\ s.wraps[e.esk.of].of = e.ct.of /\ s.seals[e.ct.of].aad = e.aad
OpenSteps(s, e) == IF IF Opens(s, e) THEN e.st = "OK" /\ e.m = s.seals[e.ct.of].m ELSE e.st # "OK" THEN {s} ELSE {}
RewrapSteps(s, e) ==
  IF ~Unwraps(s, e.by, e.esk, e.enc, e.kaad) THEN (IF e.st # "OK" THEN {s} ELSE {})
  ELSE IF e.st # "OK" THEN {}
  ELSE {[s EXCEPT !.wraps = (e.w :> [of |-> s.wraps[e.esk.of].of, to |-> e.to, aad |-> e.aad]) @@ @]}
\* Damage on the way may hit something that does not matter, but never changes the message.
DeliverSteps(s, e) ==
  IF IF e.st = "OK" THEN e.m = s.seals[e.c].m ELSE e.alt THEN {s} ELSE {}
SignSteps(s, e) == IF e.len = 64 THEN {[s EXCEPT !.sigs = (e.g :> [k |-> e.k, m |-> e.m]) @@ @]} ELSE {}
VerifySteps(s, e) ==
  IF (e.st = "OK") = (Genuine(e.sig) /\ ~e.kalt /\ s.sigs[e.sig.of].k = e.k /\ s.sigs[e.sig.of].m = e.m) THEN {s} ELSE {}

Steps(s, e) ==
  CASE e.e = "recipient" -> RecipientSteps(s, e) [] e.e = "token" -> TokenSteps(s, e) [] e.e = "seal" -> SealSteps(s, e)
    [] e.e = "open" -> OpenSteps(s, e) [] e.e = "rewrap" -> RewrapSteps(s, e) [] e.e = "deliver" -> DeliverSteps(s, e)
    [] e.e = "sign" -> SignSteps(s, e) [] e.e = "verify" -> VerifySteps(s, e)
    [] OTHER -> {}
=============================================================================
