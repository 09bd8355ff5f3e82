------------------------------- MODULE Fetch -------------------------------
(* Fetching resources into memory.                                           *)
(* A transfer, as the network played it: started (the response headers came),*)
(* code, enc (the body is still encoded), tenc (transfer encoding other than *)
(* identity), len (declared length, -1: not declared, -2: unreadable),       *)
(* n (bytes received), end ("complete", "error", "nothing").                 *)
EXTENDS Integers, Sequences

HttpOk(code) == code \in 200..299
HttpError(code) == CASE code = 400 -> "INVALID_ARGUMENT"
                     [] code = 401 -> "UNAUTHENTICATED"
                     [] code = 403 -> "PERMISSION_DENIED"
                     [] code = 404 -> "NOT_FOUND"
                     [] code = 409 -> "ABORTED"
                     [] code = 429 -> "RESOURCE_EXHAUSTED"
                     [] code = 499 -> "CANCELLED"
                     [] code = 501 -> "UNIMPLEMENTED"
                     [] code = 503 -> "UNAVAILABLE"
                     [] code = 504 -> "DEADLINE_EXCEEDED"
                     [] code \in 400..499 -> "FAILED_PRECONDITION"
                     [] code \in 500..599 -> "INTERNAL"
                     [] OTHER -> "UNKNOWN"

\* The transfer brought all that was announced, in a form that can be used.
Whole(x) == /\ x.started /\ x.end = "complete" /\ ~x.enc /\ ~x.tenc
            /\ x.len # -2 /\ (x.len >= 0 => x.n = x.len)
Succeeds(x) == Whole(x) /\ HttpOk(x.code)
\* Codes of the errors that say something about the server's answer.
ErrorIs(x, code) == Whole(x) => code = HttpError(x.code)
=============================================================================
