---------------------------- MODULE SecTransImpl ----------------------------
(* The runner: a loop that takes what the last request left in the holder,   *)
(* gives it to the protocol client and so sends the next message; and the    *)
(* application's thread, which aborts the client when it wants to stop.  The *)
(* client is locked while it sends.  Every event must be one SecTrans allows.*)
EXTENDS SecTrans, TLC

CONSTANTS Ckpt, Valid,  \* sets of BOOLEAN
          MaxPolls,
          CheckLast     \* the outcome of the last request is looked at
ASSUME CheckLast \in BOOLEAN

VARIABLES s, ok, m
vars == <<s, ok, m>>
Cfgs == [valid : Valid, ckpt : Ckpt, ckpth : {9}, masked : {"M"}, plain : {"P"}]
\* loop: where the loop is; k: message being sent; lock: who holds the client; cl: the client's state;
\* main: the application's thread; hold: the holder; left: uploads of the batch; res: the loop's result
Init == \E c \in Cfgs :
  /\ s = New(c) /\ ok = TRUE
  /\ m = [loop |-> "start", k |-> "", lock |-> "", cl |-> "adv", main |-> "wait", hold |-> "none", left |-> {}, bad |-> FALSE,
          res |-> "", stop |-> FALSE, polls |-> 0, fair |-> TRUE, got |-> "", req |-> ""]
Emit(e) == LET n == Steps(s, e) IN ok' = (n # {}) /\ s' = (IF n # {} THEN CHOOSE x \in n : TRUE ELSE s)
Silent == UNCHANGED <<s, ok>>
Kinds == <<"adv", "share", "masked", "unmask">>
H(k) == CASE k = "adv" -> 1 [] k = "share" -> 2 [] k = "masked" -> 3 [] k = "unmask" -> 4 [] OTHER -> 5
Running == m.loop \notin {"end", "off"}

Invalid == /\ m.loop = "start" /\ m.main = "wait" /\ ~s.cfg.valid
           /\ Emit([e |-> "ret", st |-> "INTERNAL", sum |-> -2]) /\ m' = [m EXCEPT !.loop = "off", !.main = "off"]
Stop == ~m.stop /\ m.main # "off" /\ Emit([e |-> "stop"]) /\ m' = [m EXCEPT !.stop = TRUE]

\* ----------------------------------------------------------------- the loop
Start == /\ m.loop = "start" /\ s.cfg.valid /\ m.lock = ""
         /\ IF m.cl = "aborted" THEN Silent /\ m' = [m EXCEPT !.loop = "end", !.res = "FAILED_PRECONDITION"]
            ELSE /\ Emit([e |-> "send", k |-> "adv", h |-> 1])
                 /\ m' = [m EXCEPT !.loop = "req", !.k = "adv", !.lock = "loop", !.left = {}, !.req = "adv"]
SendNext == /\ m.loop = "send" /\ m.lock = "loop"
            /\ Emit([e |-> "send", k |-> m.cl, h |-> H(m.cl)])
            /\ m' = [m EXCEPT !.loop = "req", !.k = m.cl, !.bad = FALSE, !.req = IF m.cl = "masked" THEN "up" ELSE m.cl,
                              !.left = IF m.cl = "masked" THEN {"masked"} \cup (IF s.cfg.ckpt THEN {"plain"} ELSE {}) ELSE {}]
\* the message is dealt with: the client moves on and is unlocked
Settled(n, hold) == [n EXCEPT !.hold = hold, !.lock = "", !.loop = "turn", !.polls = 0,
                              !.cl = IF n.k = "unmask" THEN "completed" ELSE After(n.k)]
\* the runner that makes the request is interrupted
GiveUp == m.loop = "req" /\ m.stop /\ Silent /\ m' = Settled(m, "error")
Finals == [done : {TRUE}, op : {"o"}, pause : {-1}, err : {"", "INTERNAL"}, k : {Reply(m.k), "garbage"}, h : {7}, fair : BOOLEAN]
Polls == IF m.polls < MaxPolls THEN [done : {FALSE}, op : {"o"}, pause : {0, 70000}, err : {""}, k : {""}, h : {0}, fair : {TRUE}] ELSE {}
Base(k, st, rep) == [e |-> "req", k |-> k, st |-> st, rep |-> rep]
Answered(n, e) ==
  IF e.st # "OK" THEN Settled(n, "error")
  ELSE IF ~e.rep.done THEN [n EXCEPT !.polls = @ + 1, !.req = "sleep", !.got = IF e.rep.pause > 60000 THEN "long" ELSE "short"]
  ELSE IF e.rep.err # "" \/ e.rep.k = "garbage" THEN Settled(n, "error")
  ELSE [Settled(n, "message") EXCEPT !.fair = e.rep.fair]
Operation == /\ m.loop = "req" /\ m.req \in {"adv", "share", "submit", "get"}
             /\ \E st \in {"OK", "FAIL", "GARBAGE"}, rep \in Finals \cup Polls :
                  LET b == Base(m.req, st, rep)
                      e == CASE m.req \in {"adv", "share"} -> b @@ [h |-> H(m.req)]
                             [] m.req = "submit" -> b @@ [masked |-> "M", plain |-> IF s.cfg.ckpt THEN "P" ELSE ""]
                             [] OTHER -> b @@ [op |-> "o"]
                  IN Emit(e) /\ m' = Answered(m, e)
Sleep == /\ m.loop = "req" /\ m.req = "sleep"
         /\ Emit([e |-> "sleep", ms |-> IF m.got = "long" THEN 60000 ELSE 0]) /\ m' = [m EXCEPT !.req = "get"]
Upload == /\ m.loop = "req" /\ m.req = "up" /\ m.left # {}
          /\ \E w \in m.left, st \in {"OK", "FAIL", "GARBAGE"} :
               /\ Emit(Base("up", st, <<>>) @@ [which |-> w, h |-> IF w = "masked" THEN 3 ELSE 9])
               /\ m' = [m EXCEPT !.left = @ \ {w}, !.bad = @ \/ st = "FAIL"]
Uploaded == /\ m.loop = "req" /\ m.req = "up" /\ m.left = {} /\ Silent
            /\ m' = IF m.bad THEN Settled(m, "error") ELSE [m EXCEPT !.req = "submit"]
Unmask == /\ m.loop = "req" /\ m.req = "unmask"
          /\ \E st \in {"OK", "FAIL", "GARBAGE"} :
               /\ Emit(Base("unmask", st, <<>>) @@ [h |-> 4])
               /\ m' = Settled(m, IF st = "FAIL" THEN "error" ELSE "empty")
\* the next turn of the loop
Message(hold) == CASE hold = "message" -> [e |-> "recv", ok |-> TRUE, k |-> Reply(m.k), h |-> 7]
                   [] hold = "empty" -> [e |-> "recv", ok |-> TRUE, k |-> "empty", h |-> 0]
                   [] hold = "abort" -> [e |-> "recv", ok |-> TRUE, k |-> "abort", h |-> 0]
                   [] OTHER -> [e |-> "recv", ok |-> FALSE, k |-> "", h |-> 0]
Turn == /\ m.loop = "turn" /\ m.cl # "completed"
        /\ Emit(Message(m.hold))
        /\ m' = IF m.hold \in {"error", "none"} THEN [m EXCEPT !.loop = "end", !.res = "ERROR"] ELSE [m EXCEPT !.loop = "give", !.got = m.hold]
Last == /\ m.loop = "turn" /\ m.cl = "completed"
        /\ IF CheckLast THEN Emit(Message(m.hold)) /\ m' = [m EXCEPT !.loop = "end", !.res = IF m.hold = "error" THEN "ERROR" ELSE "OK"]
           ELSE Silent /\ m' = [m EXCEPT !.loop = "end", !.res = "OK"]
\* the client takes the message; it refuses what it does not expect
Give == /\ m.loop = "give" /\ m.lock = "" /\ Silent
        /\ IF m.cl = "aborted" \/ m.got = "empty" THEN m' = [m EXCEPT !.loop = "end", !.res = "ERROR"]
           ELSE IF m.got = "abort" THEN m' = [m EXCEPT !.loop = "published", !.cl = "aborted"]
           ELSE IF m.fair THEN m' = [m EXCEPT !.loop = "send", !.lock = "loop"]
           ELSE m' = [m EXCEPT !.loop = "refuse", !.lock = "loop"]
Refuse == /\ m.loop = "refuse" /\ Emit([e |-> "send", k |-> "abort", h |-> 5]) /\ m' = [m EXCEPT !.loop = "refused"]
Refused == /\ m.loop = "refused" /\ Emit(Base("abort", "OK", <<>>) @@ [h |-> 5])
           /\ m' = [m EXCEPT !.loop = "published", !.cl = "aborted", !.lock = "", !.hold = "abort"]
Published == /\ m.loop = "published" /\ Emit([e |-> "aborted", client |-> FALSE]) /\ m' = [m EXCEPT !.loop = "end", !.res = "CANCELLED"]

\* ------------------------------------------------- the application's thread
Notice == /\ m.main = "wait" /\ m.stop /\ Running /\ Silent
          /\ s.cfg.valid
          /\ m' = IF m.loop = "start" THEN [m EXCEPT !.main = "early"] ELSE [m EXCEPT !.main = "abort"]
\* noticed before anything was started, or just after
Early == /\ m.main = "early" /\ m.loop = "start" /\ Emit([e |-> "ret", st |-> "CANCELLED", sum |-> -2])
         /\ m' = [m EXCEPT !.main = "off", !.loop = "off"]
Late == m.main = "early" /\ Silent /\ m' = [m EXCEPT !.main = "abort"]
Abort == /\ m.main = "abort" /\ m.lock = ""
         /\ IF m.cl \in {"aborted", "completed"} THEN Silent /\ m' = [m EXCEPT !.main = "tell"]
            ELSE Emit([e |-> "send", k |-> "abort", h |-> 5]) /\ m' = [m EXCEPT !.main = "aborting", !.lock = "main"]
Aborting == /\ m.main = "aborting" /\ Emit(Base("abort", "OK", <<>>) @@ [h |-> 5])
            /\ m' = [m EXCEPT !.main = "tell", !.lock = "", !.cl = "aborted", !.hold = "abort"]
Tell == /\ m.main = "tell" /\ Emit([e |-> "aborted", client |-> TRUE]) /\ m' = [m EXCEPT !.main = "join"]
Return == /\ m.main \in {"wait", "join"} /\ m.loop = "end"
          /\ LET st == IF m.main = "join" THEN "CANCELLED" ELSE m.res
             IN Emit([e |-> "ret", st |-> st, sum |-> IF st = "OK" THEN 1 ELSE -2])
          /\ m' = [m EXCEPT !.main = "off", !.loop = "off"]

Next == ok /\ (Invalid \/ Stop \/ Start \/ SendNext \/ GiveUp \/ Operation \/ Sleep \/ Upload \/ Uploaded \/ Unmask \/ Turn \/ Last \/ Give
               \/ Refuse \/ Refused \/ Published \/ Notice \/ Early \/ Late \/ Abort \/ Aborting \/ Tell \/ Return)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Allowed == ok
Finished == m.main = "off" => s.done
\* whatever is submitted was uploaded completely
NeverHalf == (s.at = "submit" \/ s.at = "poll:masked") => s.ups = {}
Quiet == <>(m.main = "off")
=============================================================================
