----------------------------- MODULE HostObjects -----------------------------
(* Objects registered under tokens, as callers see them.                      *)
(*   reg_call r o k, reg_ret r tok   registration r of object o for interface *)
(*   k; the token is new                                                      *)
(*   drop_call r, drop_ret r         the registration ends: it is destroyed,  *)
(*                                   or another one is moved into its place   *)
(*   token r tok                     asked again after having been moved      *)
(*   look_call t tok k, look_ret t o a lookup, with the object or 0; who got  *)
(*                                   an object holds it until rel o           *)
(*   same a b eq ne round            tokens compared, and sent as bytes       *)
(*   gone o                          the object is destroyed                  *)
(*   quiet                           no call is under way                     *)
(* A lookup takes effect at one moment between its call and its return; it    *)
(* finds the object of that very token and interface if its registration is   *)
(* in force at that moment, and nothing otherwise.  An object lives exactly   *)
(* as long as it is registered or held.                                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC

New == [regs |-> <<>>, held |-> <<>>, gone |-> {}, looks |-> <<>>]

\* Registrations are kept by number: [o, k, tok, st] with st in coming, in, going, out.
Regs(s) == DOMAIN s.regs
Under(s, tok, k) == {r \in Regs(s) : s.regs[r].tok = tok /\ s.regs[r].k = k}
Held(s, o) == IF o \in DOMAIN s.held THEN s.held[o] ELSE 0
Objects(s) == {s.regs[r].o : r \in Regs(s)}
Kept(s, o) == Held(s, o) > 0 \/ \E r \in Regs(s) : s.regs[r].o = o /\ s.regs[r].st \in {"coming", "in"}

\* Pending lookups learn that nothing is found from now on.
Miss(s, r) == [t \in DOMAIN s.looks |->
                IF s.looks[t].tok = s.regs[r].tok /\ s.looks[t].k = s.regs[r].k
                THEN [s.looks[t] EXCEPT !.none = TRUE] ELSE s.looks[t]]

Steps(s, e) ==
  CASE e.e = "reg_call" ->
         IF e.r \notin Regs(s) /\ e.o \notin s.gone
         THEN {[s EXCEPT !.regs = @ @@ (e.r :> [o |-> e.o, k |-> e.k, tok |-> 0, st |-> "coming"])]} ELSE {}
    [] e.e = "reg_ret" ->
         IF e.r \in Regs(s) /\ s.regs[e.r].st = "coming"
            /\ \A r \in Regs(s) : s.regs[r].tok # e.tok
            /\ \A t \in DOMAIN s.looks : s.looks[t].tok # e.tok
         THEN {[s EXCEPT !.regs[e.r].tok = e.tok, !.regs[e.r].st = "in"]} ELSE {}
    [] e.e = "drop_call" ->
         IF e.r \in Regs(s) /\ s.regs[e.r].st = "in"
         THEN {[s EXCEPT !.regs[e.r].st = "going", !.looks = Miss(s, e.r)]} ELSE {}
    [] e.e = "drop_ret" ->
         IF e.r \in Regs(s) /\ s.regs[e.r].st = "going" THEN {[s EXCEPT !.regs[e.r].st = "out"]} ELSE {}
    [] e.e = "token" ->
         IF e.r \in Regs(s) /\ s.regs[e.r].st = "in" /\ s.regs[e.r].tok = e.tok THEN {s} ELSE {}
    [] e.e = "same" -> IF e.eq = (e.a = e.b) /\ e.ne # e.eq /\ e.round THEN {s} ELSE {}
    [] e.e = "look_call" ->
         LET rs == Under(s, e.tok, e.k) IN
         IF e.t \in DOMAIN s.looks THEN {}
         ELSE {[s EXCEPT !.looks = @ @@ (e.t :> [tok |-> e.tok, k |-> e.k,
                  may |-> {s.regs[r].o : r \in {q \in rs : s.regs[q].st \in {"in", "going"}}},
                  none |-> ~\E r \in rs : s.regs[r].st = "in"])]}
    [] e.e = "look_ret" ->
         LET w == s.looks[e.t]
             n == [s EXCEPT !.looks = [t \in (DOMAIN @) \ {e.t} |-> @[t]]] IN
         IF e.t \notin DOMAIN s.looks THEN {}
         ELSE IF e.o = 0 THEN (IF w.none THEN {n} ELSE {})
         ELSE IF e.o \in w.may /\ e.o \notin s.gone
         THEN {[n EXCEPT !.held = (e.o :> (Held(s, e.o) + 1)) @@ @]} ELSE {}
    [] e.e = "rel" ->
         IF Held(s, e.o) > 0 THEN {[s EXCEPT !.held = (e.o :> (Held(s, e.o) - 1)) @@ @]} ELSE {}
    [] e.e = "gone" ->
         IF e.o \notin s.gone /\ ~Kept(s, e.o) THEN {[s EXCEPT !.gone = @ \cup {e.o}]} ELSE {}
    [] e.e = "quiet" ->
         IF \A o \in Objects(s) : o \in s.gone \/ Kept(s, o) THEN {s} ELSE {}
    [] OTHER -> {}
=============================================================================
