#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the list of checks below."""
import json, os

T = "TLA+ spec model-checked with TLC; recorded executions of the real code validated against it"
SECAGG = ("The protocol between server and clients is checked exhaustively for cohorts of 3 (complete graph) and 4 (ring) "
          "with symbolic masks; real servers and clients are bound to the same state machines by validating recorded "
          "sessions under random schedules and faults, so the code is explored, not proved.")
CONC = ("The %s algorithm is checked exhaustively for small constants as a refinement of the observable specification; the "
        "real code is bound to it by validating recorded executions under stepped and real-thread schedules, so the code "
        "itself is explored, not proved.")
CHECKS = {
    "C01": (T, "model_checking", SECAGG),
    "C02": (T, "model_checking", SECAGG),
    "C03": (T, "model_checking", SECAGG),
    "C04": (T, "model_checking", SECAGG),
    "C05": (T, "model_checking",
            "Sharing and reconstruction are enumerated exhaustively over small fields and all Harary graphs of up to 5 (6) "
            "nodes; the real field, key lengths and graphs are explored through recorded calls."),
    "C06": (T, "model_checking", CONC % "pool and worker"),
    "C07": (T, "model_checking",
            "The dispatch algorithm is checked exhaustively for small constants as a refinement of the observable "
            "specification; the real clock is bound to it by validating recorded single-threaded, multi-threaded and "
            "realtime executions, so the code itself is explored, not proved."),
}
CHECKS["C08"] = (T, "model_checking", CONC % "promise and future")
CHECKS["C09"] = (T, "model_checking", CONC % "accumulator")
FILES = ("The %s algorithm is checked exhaustively for small constants, one file system change per step, with crashes and "
         "failing steps anywhere; the real code is bound to the same specification by validating recorded processes whose "
         "file system calls fail or end the process at random points, so the code itself is explored, not proved.")
CHECKS["C10"] = (T, "model_checking", FILES % "cache's")
CHECKS["C11"] = (T, "model_checking", FILES % "scratch file manager's")
CHECKS["C17"] = (T, "model_checking", FILES % "statistics store's and logger's")
CHECKS["C16"] = (T, "model_checking", CONC % "runner's polling and abort")
CHECKS["C18"] = (T, "model_checking",
                 "The decision procedure is checked exhaustively for small populations against the definition, and the "
                 "definition against its purpose over the life of a client; the real decider is bound to it through "
                 "generated populations and histories, so the code itself is explored, not proved.")
CHECKS["C12"] = (T, "model_checking",
                 "The callback state machine and the assembly by position are checked exhaustively for two resources and "
                 "short bodies; the real code is bound to the specification through scripted transfers, so it is explored, "
                 "not proved.")
SN = ("The session's algorithm (states of session and tasks, polling, reports) is checked exhaustively against the "
      "observable specification for up to two tasks and two polls per operation; the real code is bound to the "
      "specification through scripted servers, so it is explored, not proved.")
for i in ("C13", "C14", "C15"):
    CHECKS[i] = (T, "model_checking", SN)
CHECKS["C19"] = (T, "model_checking", "The runner's loop, the transport and the aborting application thread are checked "
                 "exhaustively for two polls per operation; the real runner, transport, client and server run behind a "
                 "scripted gateway with faults and interruptions at every request, so they are explored, not proved.")
CHECKS["C25"] = (T, "model_checking", "Factory and iterator are checked exhaustively for two requests of up to two keys with "
                 "failures at every step; the real code is driven with generated templates, keys, transfers and write "
                 "failures and its trace validated, so it is explored, not proved.")
CHECKS["C26"] = (T, "model_checking", "Sealing, unsealing and the decoders' checks are checked exhaustively on small messages with "
                 "every single alteration; the real code encrypts, encodes and decodes generated and altered inputs and its "
                 "results are validated, so it is explored, not proved.")
CHECKS["C27"] = (T, "model_checking", "Handles, header parsing and the performing loop are checked exhaustively against every "
                 "modelled server answer, refusal and cancellation for up to three requests; the real client runs against a "
                 "scripted loopback server and its trace is validated, so it is explored, not proved.")
PN = ("The service's algorithm is checked exhaustively against the observable specification for %s; the real Python code "
      "runs under a controlled thread schedule (and over HTTP) and its trace is validated, so it is explored, not proved.")
CHECKS["C20"] = (T, "model_checking", PN % "three threads and up to six calls")
CHECKS["C21"] = (T, "model_checking", PN % "two computations and two clients with two check-ins")
CHECKS["C22"] = (T, "model_checking", PN % "three threads and five calls")
CHECKS["C23"] = (T, "model_checking", "Routing and decoding are checked exhaustively for all short requests against the declared "
                 "rules; those requests and generated ones are sent to the real gateway over HTTP and what the handlers and "
                 "the client saw is validated, so it is explored, not proved.")
CHECKS["C24"] = (T, "model_checking", "The chain of scopes and the table of recorders are checked exhaustively for two threads and "
                 "short programs; recorded runs of the real spans and recorders on several threads are validated, so it is "
                 "explored, not proved.")
RUN = ("The runner's sequence of phases with its logger is checked exhaustively against the three observable specifications for "
       "up to two joint and one single task, eight sorts of tasks and three faults per run; the real runner, engines, logger and "
       "history logger run between a scripted server, device and model and their trace is validated, so they are explored, not "
       "proved.")
for i in ("C28", "C29", "C30"):
    CHECKS[i] = (T, "model_checking", RUN)
CHECKS["C31"] = (T, "model_checking", "The entry point's algorithm is checked exhaustively against the observable specification for every "
                 "plan, three resources and two sources; the real entry point with engine, logger and history runs on generated plans "
                 "and sources with a scripted model and its trace is validated, so it is explored, not proved.")
CHECKS["C32"] = (T, "model_checking", "The verifier's sequence of tests is checked exhaustively against the observable specification for "
                 "three policies, two signers and three calls; the real verifier with real signatures runs on generated tokens with the "
                 "judgement of the evidence scripted and its trace is validated, so it is explored, not proved.")
CHECKS["C33"] = (T, "model_checking", "The reader is checked exhaustively against the observable specification for all logs of up to "
                 "seven lines and two records; the real writer and reader run on generated logs and their trace is validated, so they "
                 "are explored, not proved.")
CHECKS["C34"] = (T, "model_checking", "The registry is checked exhaustively against the observable specification for two threads, three "
                 "registrations that may own each other and up to six calls; the real registry runs on three threads and its trace is "
                 "validated, so it is explored, not proved.")
NOT_APPLICABLE = {}

root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
ids = [json.loads(l)["id"] for l in open(os.path.join(root, "properties.jsonl"))]
m = dict(version=1, setup_cmd="bash setup.sh",
         hooks=dict(guard="none", enable="no hooks: the drivers use public and injected interfaces only", source_commits=[]),
         checks=[dict(property=i, quick_cmd="python3 checks/check.py " + i, thorough_cmd="python3 checks/check.py " + i,
                      evidence_file="evidence/%s.json" % i, technique=CHECKS[i][0], level=CHECKS[i][1], level_note=CHECKS[i][2])
                 for i in ids if i in CHECKS],
         not_applicable=[dict(property=i, reason=NOT_APPLICABLE[i]) for i in ids if i in NOT_APPLICABLE],
         notes="Checks build their drivers from /repo's working tree into /verif/build (git-ignored).")
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(root, "MANIFEST.json"), "a").write("\n")
