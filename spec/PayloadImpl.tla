----------------------------- MODULE PayloadImpl -----------------------------
(* Reading a payload byte by byte, over a small alphabet: 1 is the marker; a  *)
(* length is one byte, Huge being a length that does not fit an int; a header *)
(* is a sequence of tags 1 or 2, each followed by a value; tag 0 ends a       *)
(* message early.                                                             *)
EXTENDS Payload, Integers, TLC

CONSTANTS MaxLen,
          CheckFits,  \* the declared length is compared with what is there
          CheckAll    \* the header must use up the declared length
Huge == 9
Byte == {0, 1, 2, 3, Huge}
Inputs == UNION {[1..n -> Byte] : n \in 0..MaxLen}
From(b, i) == SubSeq(b, i, Len(b))

VARIABLES b, pc, pos, limit, hdr, st
vars == <<b, pc, pos, limit, hdr, st>>
None == [a |-> -1, b |-> -1]
Init == b \in Inputs /\ pc = "start" /\ pos = 1 /\ limit = 0 /\ hdr = None /\ st = ""
Fail == pc' = "done" /\ st' = "INVALID_ARGUMENT" /\ UNCHANGED <<b, pos, limit, hdr>>
Start == /\ pc = "start"
         /\ IF Len(b) < 2 \/ b[1] # 1 THEN Fail
            ELSE /\ pos' = 3 /\ UNCHANGED <<b, hdr, st>>
                 /\ IF CheckFits /\ b[2] > Len(b) - 2 THEN pc' = "fail" /\ limit' = 0
                    ELSE pc' = "field" /\ limit' = (IF b[2] = Huge THEN Len(b) ELSE IF 2 + b[2] > Len(b) THEN Len(b) ELSE 2 + b[2])
Failed == pc = "fail" /\ Fail
Finish == pc' = "done" /\ st' = "OK" /\ UNCHANGED <<b, limit, hdr>>
Field == /\ pc = "field"
         /\ IF pos > limit THEN Finish /\ pos' = pos
            ELSE IF b[pos] = 0 THEN IF CheckAll THEN Fail ELSE Finish /\ pos' = pos + 1
            ELSE IF b[pos] \notin {1, 2} \/ pos + 1 > limit THEN Fail
            ELSE /\ hdr' = IF b[pos] = 1 THEN [hdr EXCEPT !.a = b[pos + 1]] ELSE [hdr EXCEPT !.b = b[pos + 1]]
                 /\ pos' = pos + 2 /\ UNCHANGED <<b, pc, limit, st>>
Next == Start \/ Failed \/ Field
Spec == Init /\ [][Next]_vars

\* the same input, as the specification describes it
RECURSIVE Read(_, _)
Read(q, h) == IF q = <<>> THEN h
              ELSE IF Len(q) >= 2 /\ q[1] = 1 THEN Read(From(q, 3), [h EXCEPT !.a = q[2]])
              ELSE IF Len(q) >= 2 /\ q[1] = 2 THEN Read(From(q, 3), [h EXCEPT !.b = q[2]])
              ELSE [a |-> -2, b |-> -2]
Described ==
  LET whole == Len(b) >= 2
      fits == whole /\ b[2] <= Len(b) - 2
      body == IF fits THEN SubSeq(b, 3, 2 + b[2]) ELSE <<>>
      h == Read(body, None)
  IN [magic |-> Len(b) >= 1 /\ b[1] = 1, whole |-> whole, fits |-> fits, good |-> h.a # -2, h |-> h,
      tail |-> IF fits THEN From(b, 3 + b[2]) ELSE <<>>, st |-> st, out |-> hdr, rest |-> From(b, pos), suffix |-> TRUE]
Correct == pc = "done" => Decodes(Described)
=============================================================================
