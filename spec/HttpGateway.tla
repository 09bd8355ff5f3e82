---------------------------- MODULE HttpGateway ----------------------------
(* The HTTP gateway: which handler a request belongs to, what the handler     *)
(* must be given, and what the caller must get back.                          *)
(* A request target is a sequence of tokens: single characters and escapes    *)
(* such as "%2F"; an escape is never a separator.                             *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

Chars(str) == [i \in 1..Len(str) |-> SubSeq(str, i, i)]
V(x) == [v |-> x]
L(str) == [l |-> Chars(str)]
Alt == L("?%24alt=proto")

\* The declared rules: method, target, what becomes of the body.
\* body: "*" a message, "data" one bytes field, "raw" handed on, "" ignored.
Agg(verb) == <<L("/v1/aggregations/"), V("aggregation_id"), L("/clients/"), V("client_token"), L(verb), Alt>>
Rules ==
  [ start |-> [m |-> "POST", body |-> "*", t |->
      <<L("/v1/aggregations/"), V("aggregation_id"), L("/clients/"), V("authorization_token"),
        L(":startdataupload"), Alt>>],
    submit |-> [m |-> "POST", body |-> "*", t |-> Agg(":submit")],
    abort |-> [m |-> "POST", body |-> "*", t |-> Agg(":abort")],
    eligibility |-> [m |-> "POST", body |-> "*", t |->
      <<L("/v1/eligibilityevaltasks/"), V("population_name"), L(":request"), Alt>>],
    assign |-> [m |-> "POST", body |-> "*", t |->
      <<L("/v1/populations/"), V("population_name"), L("/taskassignments/"), V("session_id"),
        L(":start"), Alt>>],
    assigns |-> [m |-> "POST", body |-> "*", t |->
      <<L("/v1/populations/"), V("population_name"), L("/taskassignments/"), V("session_id"),
        L(":performmultiple"), Alt>>],
    report |-> [m |-> "POST", body |-> "*", t |->
      <<L("/v1/populations/"), V("population_name"), L("/taskassignments/"), V("session_id"),
        L(":reportresult"), Alt>>],
    get |-> [m |-> "GET", body |-> "", t |->
      <<L("/shelves/"), V("shelf"), L("/items/"), V("name"), Alt>>],
    replace |-> [m |-> "POST", body |-> "data", t |->
      <<L("/shelves/"), V("shelf"), L("/items/"), V("name"), Alt>>],
    move |-> [m |-> "POST", body |-> "*", t |-> <<L("/shelves/"), V("shelf"), L(":move"), Alt>>],
    ping |-> [m |-> "POST", body |-> "", t |-> <<L("/ping.v1"), Alt>>],
    download |-> [m |-> "GET", body |-> "", t |->
      <<L("/data/"), V("group"), L("/"), V("name")>>],
    upload |-> [m |-> "POST", body |-> "raw", t |->
      <<L("/upload/v1/media/"), V("name"), L("?upload_protocol=raw")>>] ]

\* An escape in a literal part is spelled out by its characters in the rules.
Spell(tok) == IF Len(tok) = 1 THEN <<tok>> ELSE Chars(tok)

Prefix(c, toks) == Len(c) <= Len(toks) /\ SubSeq(toks, 1, Len(c)) = c

\* All ways to read toks (single characters or escapes) as template t: a set of
\* functions from variable names to token sequences.
RECURSIVE LitRest(_, _)
\* The rest of toks after the literal characters c, as a set (empty: no match).
LitRest(c, toks) ==
  IF c = <<>> THEN {toks}
  ELSE IF toks = <<>> THEN {}
  ELSE LET sp == Spell(Head(toks))
       IN IF Prefix(sp, c) THEN LitRest(SubSeq(c, Len(sp) + 1, Len(c)), Tail(toks)) ELSE {}

\* The longest prefix a variable may take.
RECURSIVE Run(_, _)
Run(toks, n) == IF n < Len(toks) /\ toks[n + 1] \notin {"/", "?"} THEN Run(toks, n + 1) ELSE n

RECURSIVE Read(_, _)
Read(t, toks) ==
  IF t = <<>> THEN (IF toks = <<>> THEN {<<>>} ELSE {})
  ELSE IF "l" \in DOMAIN Head(t)
    THEN UNION {Read(Tail(t), rest) : rest \in LitRest(Head(t).l, toks)}
    ELSE UNION {{(Head(t).v :> SubSeq(toks, 1, n)) @@ b :
                   b \in Read(Tail(t), SubSeq(toks, n + 1, Len(toks)))} :
                n \in 0..Run(toks, 0)}

Decode == [ x \in {"%2F", "%41", "%25", "%3F", "%20", "%C3%A9", "%zz", "%2f", "%26"} |->
            CASE x = "%2F" -> "/" [] x = "%2f" -> "/" [] x = "%41" -> "A" [] x = "%25" -> "%"
              [] x = "%3F" -> "?" [] x = "%20" -> " " [] x = "%C3%A9" -> "<e9>" [] x = "%26" -> "&"
              [] x = "%zz" -> "%zz" ]
\* Escapes that are no text.
Broken == {"%FF", "%C3%28"}

RECURSIVE Text(_)
Text(toks) == IF toks = <<>> THEN ""
              ELSE (IF Head(toks) \in DOMAIN Decode THEN Decode[Head(toks)] ELSE Head(toks))
                     \o Text(Tail(toks))

Readable(b) == \A x \in DOMAIN b : \A i \in 1..Len(b[x]) : b[x][i] \notin Broken

\* Who may be given the request: (rule name, variables).
Targets(q) == UNION {{[h |-> r, vars |-> b] : b \in Read(Rules[r].t, q.path)} :
                       r \in {x \in DOMAIN Rules : Rules[x].m = q.method}}

\* q.body: what the body is: "good", "short" (less than announced), "garbled" (not a
\* message), "badzip", "cutzip"; q.length: "ok", "none", "bad", "negative";
\* q.enc: "", "gzip", "other".
Sound(q, h) ==
  \/ Rules[h].m = "GET"
  \/ /\ q.length = "ok"
     /\ q.enc \in {"", "gzip"}
     /\ q.body \notin {"short", "badzip", "cutzip"}
     /\ q.body = "garbled" => Rules[h].body # "*"

\* One request: state "sent", "handled", "answered".
New == [st |-> "idle"]

Steps(s, e) ==
  CASE e.e = "req" -> IF s.st \in {"idle", "answered"}
                        THEN {[st |-> "sent", q |-> e, to |-> Targets(e)]} ELSE {}
    [] e.e = "handled" ->
         IF /\ s.st = "sent"
            /\ \E x \in s.to :
                 /\ x.h = e.h
                 /\ Readable(x.vars)
                 /\ Sound(s.q, e.h)
                 /\ DOMAIN e.vars = DOMAIN x.vars
                 /\ \A y \in DOMAIN x.vars : e.vars[y] = Text(x.vars[y])
                 /\ e.rest = CASE Rules[e.h].body = "*" -> s.q.rest
                               [] Rules[e.h].body \in {"data", "raw"} -> s.q.raw
                               [] OTHER -> ""
           THEN {[st |-> "handled", q |-> s.q, to |-> s.to, r |-> e]} ELSE {}
    [] e.e = "resp" ->
         IF \/ s.st = "handled" /\ e.status = s.r.status
               /\ (e.status = 200 => e.type = s.r.type /\ e.data = s.r.data /\ e.len)
            \/ s.st = "sent" /\ e.status >= 400 /\ e.status < 600
               \* Refused only for a reason.
               /\ \A x \in s.to : ~(Readable(x.vars) /\ Sound(s.q, x.h))
               /\ (s.to = {} /\ s.q.method \in {"GET", "POST"} => e.status = 404)
               /\ (s.to # {} => e.status < 500)
           THEN {[st |-> "answered"]} ELSE {}
    [] e.e = "end" -> IF s.st \in {"idle", "answered"} THEN {s} ELSE {}
=============================================================================
