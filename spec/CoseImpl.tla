------------------------------- MODULE CoseImpl -------------------------------
(* Reading a token the way the library does: parse, look at the kinds of the  *)
(* items, then at the signature or the first of several, then at the header   *)
(* and the claims.  Using an item as something it is not ends in a crash.     *)
EXTENDS Cose, TLC

CONSTANTS CheckArray,  \* the first signature is known to be an array before it is used as one
          CheckThird,  \* its third item is known to be bytes before it is used as such
          CheckKey     \* the key is known to be there before it is returned
Kinds == {"i", "b", "a", "m"}
\* kinds of the items of the token and of the first signature
Tops == {<<>>, <<"b", "m", "b">>, <<"b", "m", "b", "b", "b">>} \cup [1..4 -> Kinds]
Firsts == {<<>>, <<"b", "m">>} \cup {<<x, y, z>> : x \in Kinds, y \in {"m", "i"}, z \in Kinds}
Map(ents) == [top |-> TRUE, extra |-> FALSE, cut |-> FALSE, ents |-> ents]
Keys == {Map(<<E("1", "i", "1"), E("-2", "b", "x")>>), Map(<<E("1", "i", "4")>>), Map(<<E("1", "b", "1")>>)}
Hdrs == {Map(<<>>), Map(<<E("1", "i", "7")>>), Map(<<E("1", "b", "7")>>), [Map(<<>>) EXCEPT !.extra = TRUE]}
Pays == {Map(<<>>), Map(<<E("-65537", "b", "k")>>), Map(<<E("-4670552", "i", "k"), E("4", "i", "5")>>),
         Map(<<E("~", "i", "1"), E("-4670552", "b", "k"), E("4", "i", "5")>>), Map(<<E("4", "b", "5")>>)}
\* The same token with a claim more or less, several signatures or one.
VARIABLES tok, st, ast, out, pc
vars == <<tok, st, ast, out, pc>>
Init == /\ \E t \in Tops, n \in 0..2, t0 \in {"a", "b", "i"}, t1 \in Firsts, h \in Hdrs, p \in Pays, k \in Keys :
             /\ (Len(t) # 4 \/ t[4] # "a") => (n = 0 /\ t0 = "b" /\ t1 = <<>>)
             /\ (t0 # "a" \/ n = 0) => t1 = <<>>
             /\ tok = [top |-> TRUE, extra |-> FALSE, cut |-> FALSE, t |-> t, nsig |-> n, t0 |-> t0, t1 |-> t1, hdr |-> h, pay |-> p,
                       key |-> k, cfg |-> "1", sig |-> "s", aad |-> "", body |-> "b", hdris |-> "h", payis |-> "p"]
        /\ st = "" /\ ast = "" /\ out = [none |-> TRUE] /\ pc = "top"
Bad == st' = "INVALID_ARGUMENT" /\ pc' = "attest" /\ UNCHANGED <<tok, ast, out>>
Crash == st' = "CRASH" /\ pc' = "attest" /\ UNCHANGED <<tok, ast, out>>
Go(p) == pc' = p /\ UNCHANGED <<tok, st, ast, out>>
Top == /\ pc = "top"
       /\ IF Len(tok.t) # 4 THEN Bad
          ELSE IF tok.t[1] # "b" \/ tok.t[2] # "m" \/ tok.t[3] # "b" THEN Bad
          ELSE IF tok.t[4] = "b" THEN Go("hdr")
          ELSE IF tok.t[4] = "a" /\ tok.nsig > 0 THEN Go("first") ELSE Bad
First == /\ pc = "first"
         /\ IF tok.t0 # "a" THEN (IF CheckArray THEN Bad ELSE Crash)
            ELSE IF Len(tok.t1) # 3 THEN Bad
            ELSE IF tok.t1[1] # "b" THEN Bad
            ELSE IF tok.t1[3] # "b" THEN (IF CheckThird THEN Bad ELSE Crash)
            ELSE Go("hdr")
Hdr == pc = "hdr" /\ IF Sound(tok.hdr) /\ Typed(tok.hdr, [k \in {"1"} |-> "i"]) THEN Go("pay") ELSE Bad
Pay == /\ pc = "pay"
       /\ IF PayGood(tok) THEN st' = "OK" /\ out' = CwtOut(tok) /\ pc' = "attest" /\ UNCHANGED <<tok, ast>> ELSE Bad
Attest == /\ pc = "attest" /\ pc' = "done" /\ UNCHANGED <<tok, st, out>>
          /\ ast' = IF st # "OK" THEN st ELSE IF out.haskey THEN "OK" ELSE IF CheckKey THEN "INVALID_ARGUMENT" ELSE "CRASH"
Next == Top \/ First \/ Hdr \/ Pay \/ Attest
Spec == Init /\ [][Next]_vars

Event == [x \in DOMAIN tok \cup {"st", "out", "vst", "verify", "ast", "akey"} |->
            CASE x = "st" -> st [] x = "out" -> out [] x = "ast" -> ast [] x = "akey" -> IF ast = "OK" THEN out.key ELSE NoKey
              [] x = "vst" -> IF SigGood(tok) THEN "OK" ELSE "INVALID_ARGUMENT" [] x = "verify" -> IF SigGood(tok) THEN SigOut(tok) ELSE <<>>
              [] OTHER -> tok[x]]
Correct == pc = "done" => Cwt(Event)
NoCrash == st # "CRASH" /\ ast # "CRASH"
=============================================================================
