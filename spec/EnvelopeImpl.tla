---------------------------- MODULE EnvelopeImpl ----------------------------
(* Sealing, rewrapping and opening with symbolic ciphers, against somebody    *)
(* who mixes, replays and damages all pieces ever sent.  A term stands for    *)
(* the bytes; only the matching key, associated data and encapsulation open   *)
(* it.  Every outcome must be one that Envelope allows.                       *)
EXTENDS Envelope

CONSTANTS MaxSeals, MaxWraps,
          FreshKey,   \* every message gets a key of its own
          BindAad,    \* the message is bound to its associated data
          BindKeyAad, \* the wrapped key is bound to its associated data
          BindEnc     \* the wrapping key depends on the encapsulation
Mids == {1}
Decs == {2, 3}
Recs == Mids \cup Decs
Aads == {"a", "b"}

VARIABLES s, ok,
          cts,  \* ciphertexts sent: [k: symmetric key, aad, m]
          wrs   \* wrapped keys sent: [enc, esk: [k: <<enc, recipient>>, aad, body]]
vars == <<s, ok, cts, wrs>>
Init == /\ s = [New EXCEPT !.x = [d \in Recs |-> ToString(d)], !.mid = Mids]
        /\ ok = TRUE /\ cts = <<>> /\ wrs = <<>>
Emit(e) == LET t == Steps(s, e) IN ok' = (t # {}) /\ s' = (IF t # {} THEN CHOOSE x \in t : TRUE ELSE s)
Wrapped(n, body, to, aad) == [enc |-> n, esk |-> [k |-> <<IF BindEnc THEN n ELSE 0, to>>, aad |-> aad, body |-> body]]

Seal == /\ Len(cts) < MaxSeals /\ Len(wrs) < MaxWraps
        /\ \E d \in Recs, a \in Aads, tok \in {"good", "bad"} :
             LET c == Len(cts) + 1 w == Len(wrs) + 1 key == IF FreshKey THEN c ELSE 1 IN
             /\ Emit([e |-> "seal", c |-> c, w |-> w, d |-> d, tok |-> tok, aad |-> a, m |-> ToString(c),
                      st |-> IF tok = "good" THEN "OK" ELSE "INVALID_ARGUMENT"])
             /\ IF tok = "good"
                THEN cts' = Append(cts, [k |-> key, aad |-> a, m |-> ToString(c)]) /\ wrs' = Append(wrs, Wrapped(w, key, d, a))
                ELSE UNCHANGED <<cts, wrs>>
\* what the network can present: any piece, as it was or damaged
Pieces(n) == [of : 1..n, alt : BOOLEAN]
NoTerm == [k |-> <<>>, aad |-> "", body |-> 0]
Esk(p) == IF p.alt THEN NoTerm ELSE wrs[p.of].esk
Enc(p) == IF p.alt THEN 0 ELSE wrs[p.of].enc
\* the key that comes out, or 0
Unwrap(d, esk, enc, kaad) ==
  LET t == Esk(esk) IN
  IF t.k = <<IF BindEnc THEN Enc(enc) ELSE 0, d>> /\ (BindKeyAad => t.aad = kaad) THEN t.body ELSE 0
Rewrap == /\ wrs # <<>> /\ Len(wrs) < MaxWraps
          /\ \E by \in Mids, to \in Recs, esk \in Pieces(Len(wrs)), enc \in Pieces(Len(wrs)), ka \in Aads, a \in Aads :
               LET key == Unwrap(by, esk, enc, ka) w == Len(wrs) + 1 IN
               /\ Emit([e |-> "rewrap", by |-> by, to |-> to, esk |-> esk, enc |-> enc, kaad |-> ka, w |-> w, aad |-> a,
                        st |-> IF key # 0 THEN "OK" ELSE "INVALID_ARGUMENT"])
               /\ wrs' = IF key # 0 THEN Append(wrs, Wrapped(w, key, to, a)) ELSE wrs
               /\ UNCHANGED cts
Open == /\ wrs # <<>>
        /\ \E d \in Decs, ct \in Pieces(Len(cts)), esk \in Pieces(Len(wrs)), enc \in Pieces(Len(wrs)), ka \in Aads, a \in Aads :
             LET key == Unwrap(d, esk, enc, ka)
                 opens == key # 0 /\ ~ct.alt /\ cts[ct.of].k = key /\ (BindAad => cts[ct.of].aad = a)
             IN Emit([e |-> "open", d |-> d, ct |-> ct, esk |-> esk, enc |-> enc, kaad |-> ka, aad |-> a,
                      st |-> IF opens THEN "OK" ELSE "INVALID_ARGUMENT", m |-> IF opens THEN cts[ct.of].m ELSE ""])
        /\ UNCHANGED <<cts, wrs>>
Next == ok /\ (Seal \/ Rewrap \/ Open)
Spec == Init /\ [][Next]_vars
Allowed == ok
=============================================================================
