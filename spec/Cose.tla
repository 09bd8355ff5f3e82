-------------------------------- MODULE Cose --------------------------------
(* COSE keys and tokens (RFC 9052, RFC 8392): which structures are accepted,  *)
(* what they are read as, and what is written.                                *)
EXTENDS Integers, Sequences, FiniteSets

\* A map is described by [top: it is a map, extra: followed by other bytes, cut: incomplete, ents].
\* Entries are [k: key, t: kind of value, v].
Sound(d) == d.top /\ ~d.extra /\ ~d.cut
Ent(d, k) == {d.ents[i] : i \in {j \in DOMAIN d.ents : d.ents[j].k = k}}
Val(d, k, none) == IF Ent(d, k) = {} THEN none ELSE (CHOOSE x \in Ent(d, k) : TRUE).v
Typed(d, types) == \A k \in DOMAIN types : \A x \in Ent(d, k) : x.t = types[k]
HasKey(d, k) == Ent(d, k) # {}

OkpTypes == [k \in {"1", "2", "3", "-1", "-2"} |-> IF k \in {"2", "-2"} THEN "b" ELSE "i"]
OkpGood(d) == Sound(d) /\ Typed(d, OkpTypes) /\ Val(d, "1", "none") = "1"
OkpOut(d) == [kid |-> Val(d, "2", ""), alg |-> Val(d, "3", "none"), crv |-> Val(d, "-1", "none"), x |-> Val(d, "-2", "")]
SymTypes == [k \in {"1", "3", "-1"} |-> IF k = "-1" THEN "b" ELSE "i"]
SymGood(d) == Sound(d) /\ Typed(d, SymTypes) /\ Val(d, "1", "none") = "4"
SymOut(d) == [alg |-> Val(d, "3", "none"), k |-> Val(d, "-1", "")]
NoKey == [kid |-> "", alg |-> "none", crv |-> "none", x |-> ""]

Okp(e) == IF OkpGood(e.d) THEN e.st = "OK" /\ e.out = OkpOut(e.d) ELSE e.st # "OK"
Sym(e) == IF SymGood(e.d) THEN e.st = "OK" /\ e.out = SymOut(e.d) ELSE e.st # "OK"

\* What is written: the parameters that are set, each once.
E(k, t, v) == [k |-> k, t |-> t, v |-> v]
If(c, x) == IF c THEN {x} ELSE {}
SetOf(q) == {q[i] : i \in DOMAIN q}
Writes(ents, want) == SetOf(ents) = want /\ Len(ents) = Cardinality(want)
OkpEnts(k) == {E("1", "i", "1")} \cup If(k.kid # "", E("2", "b", k.kid)) \cup If(k.alg # "none", E("3", "i", k.alg))
              \cup If(k.crv # "none", E("-1", "i", k.crv)) \cup If(k.x # "", E("-2", "b", k.x))
SymEnts(k) == {E("1", "i", "4")} \cup If(k.alg # "none", E("3", "i", k.alg)) \cup If(k.k # "", E("-1", "b", k.k))
OkpEnc(e) == e.st = "OK" /\ Writes(e.ents, OkpEnts(e.k))
SymEnc(e) == e.st = "OK" /\ Writes(e.ents, SymEnts(e.k))

\* Tokens.
Item(t, v) == [t |-> t, v |-> v]
CwtEnc(e) ==
  /\ e.st = "OK" /\ e.back = "OK" /\ e.out = e.c
  /\ Len(e.items) = 4 /\ e.items[1].t = "b" /\ e.items[2].t = "m" /\ e.items[3].t = "b" /\ e.items[4] = Item("b", e.c.sig)
  /\ Writes(e.hdr, If(e.c.alg # "none", E("1", "i", e.c.alg)))
  /\ Writes(e.pay, If(e.c.exp # "none", E("4", "i", e.c.exp)) \cup If(e.c.iat # "none", E("6", "i", e.c.iat))
                   \cup If(e.c.haskey, E("-65537", "b", e.keyis)) \cup If(e.c.cfg # "none", E("-65538", "b", e.cfgis)))
  \* what is signed is what will be verified
  /\ e.sign = <<Item("t", "Signature1"), e.items[1], Item("b", e.aad), e.items[3]>>
  /\ e.verify = e.sign

Whole(e) == e.top /\ ~e.extra /\ ~e.cut /\ Len(e.t) = 4
Multi(e) == e.t[4] = "a"
FirstSig(e) == e.nsig > 0 /\ e.t0 = "a" /\ Len(e.t1) = 3 /\ e.t1[1] = "b"
PayTypes == [k \in {"4", "6", "-65537", "-4670552", "-65538"} |-> IF k \in {"4", "6"} THEN "i" ELSE "b"]
KeyGiven(e) == HasKey(e.pay, "-65537") \/ HasKey(e.pay, "-4670552")
PayGood(e) == /\ Sound(e.pay) /\ Typed(e.pay, PayTypes) /\ (KeyGiven(e) => OkpGood(e.key))
              /\ (HasKey(e.pay, "-65538") => e.cfg # "bad")
CwtGood(e) ==
  /\ Whole(e) /\ e.t[1] = "b" /\ e.t[2] = "m" /\ e.t[3] = "b"
  /\ IF Multi(e) THEN FirstSig(e) /\ e.t1[3] = "b" ELSE e.t[4] = "b"
  /\ Sound(e.hdr) /\ Typed(e.hdr, [k \in {"1"} |-> "i"]) /\ PayGood(e)
CwtOut(e) == [alg |-> Val(e.hdr, "1", "none"), exp |-> Val(e.pay, "4", "none"), iat |-> Val(e.pay, "6", "none"),
              haskey |-> KeyGiven(e), key |-> IF KeyGiven(e) THEN OkpOut(e.key) ELSE NoKey,
              cfg |-> IF HasKey(e.pay, "-65538") THEN e.cfg ELSE "none", sig |-> e.sig]
\* The kind of the unprotected header of a signature is nobody's business.
MayRefuse(e) == Whole(e) /\ Multi(e) /\ FirstSig(e) /\ e.t1[2] # "m"
SigGood(e) == Whole(e) /\ e.t[1] = "b" /\ e.t[3] = "b" /\ (Multi(e) => FirstSig(e))
SigOut(e) == IF Multi(e) THEN <<Item("t", "Signature"), Item("b", e.body), Item("b", e.hdris), Item("b", e.aad), Item("b", e.payis)>>
             ELSE <<Item("t", "Signature1"), Item("b", e.body), Item("b", e.aad), Item("b", e.payis)>>
Cwt(e) ==
  /\ IF CwtGood(e) THEN (e.st = "OK" /\ e.out = CwtOut(e)) \/ (e.st # "OK" /\ MayRefuse(e)) ELSE e.st # "OK"
  /\ IF SigGood(e) THEN (e.vst = "OK" /\ e.verify = SigOut(e)) \/ (e.vst # "OK" /\ ~CwtGood(e)) ELSE e.vst # "OK"
  \* a key comes out of a token exactly if there is one
  /\ IF CwtGood(e) /\ KeyGiven(e) THEN (e.ast = "OK" /\ e.akey = OkpOut(e.key)) \/ (e.ast # "OK" /\ MayRefuse(e)) ELSE e.ast # "OK"
=============================================================================
