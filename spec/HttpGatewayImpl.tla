-------------------------- MODULE HttpGatewayImpl --------------------------
(* The gateway as built: the rules are tried one after the other, the first   *)
(* that matches the whole target reads and decodes the body, then the path    *)
(* variables, then calls the handler.  Every request of a set is put through  *)
(* it and judged by HttpGateway; the same set is written out for the driver.  *)
EXTENDS HttpGateway, Json, IOUtils, SequencesExt
CONSTANTS Bug

Toks(str) == Chars(str)
Values == {<<"a">>, <<>>, <<"%2F", "b">>, Toks("x:submit"), Toks(":move"), <<"%FF">>,
           <<"%41", "+", "%zz">>}
Few == {<<"a">>, Toks("x:abort"), <<"%3F">>}

RECURSIVE Fill(_, _)
Fill(t, vs) == IF t = <<>> THEN <<>>
               ELSE IF "l" \in DOMAIN Head(t) THEN Head(t).l \o Fill(Tail(t), vs)
               ELSE Head(vs) \o Fill(Tail(t), Tail(vs) \o <<Head(vs)>>)

\* Ways to be a little off.
Cut(p) == LET k == {i \in 1..Len(p) : p[i] = "?"}
          IN IF k = {} THEN p ELSE SubSeq(p, 1, (CHOOSE i \in k : \A j \in k : i <= j) - 1)
Off(p) == {p, Cut(p), p \o Toks("x"), p \o Toks("&a=b"), Cut(p) \o Toks("?alt=json"), Toks("/v1") \o p,
           SubSeq(p, 1, Len(p) - 1), Cut(p) \o Toks("/?%24alt=proto"), Cut(p) \o Toks("?%24alt=proto")}

Targets0 == UNION {{[h |-> r, p |-> Fill(Rules[r].t, <<v, w>>)] : v \in Values, w \in Few} :
                     r \in DOMAIN Rules}
Paths == UNION {{[h |-> x.h, p |-> o] : o \in Off(x.p)} : x \in Targets0}
\* (a target consists of single characters or escapes, so each is one token sequence)
Lines == {[h |-> x.h, method |-> m, path |-> x.p] : x \in Paths, m \in {"GET", "POST"}}

Bodies == {[length |-> "ok", enc |-> "", body |-> "good"], [length |-> "ok", enc |-> "gzip", body |-> "good"],
           [length |-> "ok", enc |-> "gzip", body |-> "cutzip"], [length |-> "none", enc |-> "", body |-> "good"],
           [length |-> "ok", enc |-> "other", body |-> "good"], [length |-> "ok", enc |-> "", body |-> "garbled"],
           [length |-> "ok", enc |-> "", body |-> "short"]}

VARIABLES q, pc, s, ok
vars == <<q, pc, s, ok>>

Order == SetToSeq(DOMAIN Rules)

Init == /\ \E x \in Lines, b \in Bodies :
             q = [e |-> "req", h |-> x.h, method |-> x.method, path |-> x.path, enc |-> b.enc,
                  length |-> b.length, body |-> b.body, rest |-> "m", raw |-> "r"]
        /\ pc = 0 /\ s = New /\ ok = TRUE

Emit(e) == LET n == Steps(s, e) IN IF n = {} THEN ok' = FALSE /\ s' = s
                                   ELSE ok' = TRUE /\ s' = CHOOSE x \in n : TRUE

Send == pc = 0 /\ pc' = 1 /\ Emit(q) /\ UNCHANGED q

\* A prefix is enough when the match is not required to be full.
Match(r) == IF Bug = "search"
              THEN UNION {Read(Rules[r].t, SubSeq(q.path, 1, n)) : n \in 1..Len(q.path)}
              ELSE Read(Rules[r].t, q.path)

Answer(status) == Emit([e |-> "resp", status |-> status, type |-> "", data |-> "", len |-> TRUE])

Try == /\ pc > 0 /\ pc <= Len(Order)
       /\ UNCHANGED q
       /\ LET r == Order[pc] IN
          IF Rules[r].m # q.method \/ Match(r) = {}
            THEN pc' = pc + 1 /\ UNCHANGED <<s, ok>>
            ELSE LET b == CHOOSE x \in Match(r) : TRUE
                     readBody == q.method = "POST"
                     refused == \/ readBody /\ (q.length # "ok" \/ q.body \in {"short", "cutzip"}
                                                  \/ (q.enc = "other" /\ Bug # "encoding"))
                                \/ Rules[r].body = "*" /\ q.body = "garbled"
                                \/ ~Readable(b)
                 IN IF refused
                      THEN Answer(400) /\ pc' = 100
                      ELSE /\ Emit([e |-> "handled", h |-> r, status |-> 200, type |-> "", data |-> "",
                                    vars |-> [x \in DOMAIN b |-> Text(b[x])],
                                    rest |-> CASE Rules[r].body = "*" -> "m"
                                               [] Rules[r].body \in {"raw", "data"} -> "r"
                                               [] OTHER -> ""])
                           /\ pc' = 99
Reply == pc = 99 /\ pc' = 100 /\ UNCHANGED q /\ Answer(200)
NoRule == pc = Len(Order) + 1 /\ pc' = 100 /\ UNCHANGED q /\ Answer(404)

Next == ok /\ (Send \/ Try \/ Reply \/ NoRule)
Spec == Init /\ [][Next]_vars

Legal == ok
\* No request has two homes, and variables can be read in one way only.
Unique == Cardinality(Targets(q)) <= 1
\* Every request is answered.
Ends == pc = 100 => s.st = "answered"

Dump == TLCGet("distinct") > 0 /\ ndJsonSerialize(IOEnv.REQUESTS, SetToSeq(Lines))
=============================================================================
