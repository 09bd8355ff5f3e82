#!/usr/bin/env python3
"""check.py <property id>: runs the check of one property."""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib  # noqa: E402

TABLE = {}


def check(pid):
    def deco(f):
        TABLE[pid] = f
        return f
    return deco


@check("C07")
def c07(c):
    c.build("d_clock")
    c.mc("ClockImpl")
    if c.thorough:
        c.mc("ClockImpl", "ClockImpl_live.cfg")
        c.mc("ClockImpl", "ClockImpl_thorough.cfg")
    d = c.bin("d_clock")
    jobs = []
    for k in range(c.pick(2, 10)):
        for mode, runs in (("st", 800), ("mt", 300), ("real", 40)):
            t = "%s/%s%d.ndjson" % (c.work, mode, k)
            jobs.append(([d, t, str(c.seed * 100 + k), str(runs), mode], t))
    c.validate("ClockTrace", c.drive_all(jobs))
    c.assumptions += ["Waiters do not move simulated time backwards while being woken.",
                      "Realtime wake-ups may be late by up to 5 s of machine load before they count as lost."]


def secagg(c, modes):
    """C01-C04 share the protocol model and the driver and differ in what is compared."""
    c.build("d_secagg")
    c.mc("SecAgg")
    if c.thorough:
        c.mc("SecAgg", "SecAgg_f2.cfg")
        c.mc("SecAgg", "SecAgg_ring.cfg")
    d = c.bin("d_secagg")
    jobs = []
    for k in range(c.pick(4, 24)):
        for mode, runs in modes:
            t = "%s/%s%d.ndjson" % (c.work, mode, k)
            jobs.append(([d, mode, str(c.seed * 1000 + k), str(runs), t], t))
    c.validate("SecAggTrace", c.drive_all(jobs), env=dict(FOCUS=c.pid))
    c.assumptions += ["Cryptographic primitives are taken as given; masks and keys are symbolic in the model.",
                      "Channels between a client and the server deliver under the right client id."]


@check("C01")
def c01(c):
    secagg(c, (("session", 250), ("threads", 60)))
    c.assumptions += ["Clients whose masked input is accepted report key shares they were really given."]


@check("C02")
def c02(c):
    secagg(c, (("session", 100), ("client", 700)))


@check("C03")
def c03(c):
    secagg(c, (("session", 300), ("threads", 60)))
    c.probe([c.bin("d_secagg"), "badshare", "1", "1", "/dev/null"], "share-length",
            "a key share of unexpected length in an UnmaskingResponse terminates the server process")


@check("C04")
def c04(c):
    secagg(c, (("session", 100), ("client", 900)))


def jobs(c, driver, modes, k):
    """Driver invocations <trace> <seed> <runs> <mode>, k seeds each."""
    d = c.bin(driver)
    out = []
    for i in range(k):
        for mode, runs in modes:
            t = "%s/%s_%s%d.ndjson" % (c.work, driver, mode, i)
            out.append(([d, t, str(c.seed * 1000 + i), str(runs), mode], t))
    return out


@check("C05")
def c05(c):
    c.build("d_shamir")
    c.mc("Shamir")
    if c.thorough:
        c.mc("Shamir", "Shamir_thorough.cfg")
    c.validate("ShamirTrace", c.drive_all(jobs(c, "d_shamir", (("all", 150),), c.pick(6, 40))), max_events=4000)
    c.assumptions += ["The field is replaced by small prime fields in the model; the real field is reached through recorded calls.",
                      "Malformed shares are outside (the code stops the process on them)."]


@check("C06")
def c06(c):
    c.build("d_sched")
    c.mc("SchedImpl")
    if c.thorough:
        c.mc("SchedImpl", "SchedImpl_thorough.cfg")
    c.validate("SchedTrace", c.drive_all(jobs(c, "d_sched", (("pool", 300), ("step", 300), ("rely", 300)), c.pick(6, 40)), timeout=45))
    c.assumptions += ["A worker or pool is destroyed only when idle, as its interface demands."]


@check("C08")
def c08(c):
    c.build("d_sched")
    c.mc("FutureImpl")
    c.validate("FutureTrace", c.drive_all(jobs(c, "d_sched", (("future", 1500),), c.pick(6, 40)), timeout=45))
    c.assumptions += ["The future object itself is moved or destroyed by one thread at a time."]


@check("C09")
def c09(c):
    c.build("d_acc")
    c.mc("AccImpl")
    if c.thorough:
        c.mc("AccImpl", "AccImpl_thorough.cfg")
    c.validate("AccTrace", c.drive_all(jobs(c, "d_acc", (("step", 600), ("threads", 300)), c.pick(6, 40)), timeout=45))
    c.assumptions += ["Results are taken when no task is active, as the interface demands."]


@check("C10")
def c10(c):
    c.build("d_cache")
    c.mc("CacheImpl")
    if c.thorough:
        c.mc("CacheImpl", "CacheImpl_thorough.cfg")
    c.validate("CacheTrace", c.drive_all(jobs(c, "d_cache", (("plain", 30), ("fault", 60), ("crash", 60)), c.pick(4, 30)), timeout=60))
    c.assumptions += ["Cache ids are plain file names, as its users derive them from resource ids and hashes."]


@check("C11")
def c11(c):
    c.build("d_temp")
    c.mc("TempImpl")
    c.validate("TempTrace", c.drive_all(jobs(c, "d_temp", (("plain", 60), ("fault", 90)), c.pick(4, 30)), timeout=60))


@check("C17")
def c17(c):
    c.build("d_opstats")
    c.mc("OpStatsImpl")
    c.validate("OpStatsTrace", c.drive_all(jobs(c, "d_opstats", (("plain", 60), ("fault", 90), ("crash", 60)), c.pick(4, 30)), timeout=60))
    c.assumptions += ["Runs are committed in the order of their events; events outside any phase come before the first phase.",
                      "Time stamps are whole seconds, as the logger writes them."]


@check("C16")
def c16(c):
    c.build("d_interrupt")
    c.mc("InterruptImpl")
    if c.thorough:
        c.mc("InterruptImpl", "InterruptImpl_thorough.cfg")
    c.validate("InterruptTrace", c.drive_all(jobs(c, "d_interrupt", (("one", 150), ("many", 100)), c.pick(4, 30)), timeout=120))
    c.assumptions += ["A call that ends before its caller polls an abort request may return either way.",
                      "Bodies that end, end within 20 s of being asked to."]


@check("C18")
def c18(c):
    c.build("d_elig")
    c.mc("EligImpl")
    c.mc("EligLife")
    c.validate("EligTrace", c.drive_all(jobs(c, "d_elig", (("all", 3000),), c.pick(8, 60))))
    c.assumptions += ["Task names are distinct and policy numbers exist; the history is in order of time.",
                      "All tasks of one run share its separation index, as the statistics record it."]


@check("C12")
def c12(c):
    c.build("d_fetch")
    c.mc("FetchImpl")
    if c.thorough:
        c.mc("FetchImpl", "FetchImpl_thorough.cfg")
    c.validate("FetchTrace", c.drive_all(jobs(c, "d_fetch", (("mixed", 500), ("errors", 500)), c.pick(4, 40)), timeout=120))
    c.assumptions += ["The HTTP client keeps its contract: no further callbacks after a callback returned an error.",
                      "Compressed bodies are single gzip streams."]

def session(c, modes, k):
    c.build("d_session")
    c.mc("SessionImpl")
    c.mc("SessionImpl", "SessionImpl_many.cfg")
    if c.thorough:
        c.mc("SessionImpl", "SessionImpl_plain.cfg")
        c.mc("SessionImpl", "SessionImpl_thorough.cfg")
    c.validate("SessionTrace", c.drive_all(jobs(c, "d_session", modes, k), timeout=200))
    c.assumptions += ["The application makes calls in the documented order (an order outside it ends the process by design).",
                      "The server keeps the name of an operation and gives different tasks different aggregation sessions."]


@check("C13")
def c13(c):
    session(c, (("polls", 500), ("faults", 400)), c.pick(4, 40))


@check("C14")
def c14(c):
    session(c, (("many", 400), ("faults", 400), ("plain", 300)), c.pick(3, 30))


@check("C15")
def c15(c):
    session(c, (("retry", 300), ("many", 400), ("faults", 400)), c.pick(3, 30))

@check("C19")
def c19(c):
    c.build("d_satrans")
    c.mc("SecTransImpl")
    if c.thorough:
        c.mc("SecTransImpl", "SecTransImpl_thorough.cfg")
    c.validate("SecTransTrace", c.drive_all(jobs(c, "d_satrans", (("mixed", 300), ("stops", 300)), c.pick(4, 40)), timeout=200))
    c.assumptions += ["The gateway between the requests and the real aggregation server is part of the harness.",
                      "Which message the protocol receives between an interruption and the end of the run is left open."]

@check("C25")
def c25(c):
    c.build("d_select")
    c.mc("FedSelectImpl")
    if c.thorough:
        c.mc("FedSelectImpl", "FedSelectImpl_thorough.cfg")
    c.validate("FedSelectTrace", c.drive_all(jobs(c, "d_select", (("mixed", 250), ("errors", 250)), c.pick(4, 40)), timeout=200))
    c.assumptions += ["Writing fails through a limit on the size of files, set only while a slice is being written.",
                      "Which files are created is up to the stand-in for Files."]


@check("C26")
def c26(c):
    c.build("d_seal")
    c.mc("EnvelopeImpl")
    c.mc("PayloadImpl")
    c.mc("CoseImpl")
    if c.thorough:
        c.mc("EnvelopeImpl", "EnvelopeImpl_thorough.cfg")
        c.mc("PayloadImpl", "PayloadImpl_thorough.cfg")
    c.validate("SealedTrace", c.drive_all(jobs(c, "d_seal", (("envelope", 150), ("codec", 150), ("cose", 150)), c.pick(3, 30)), timeout=200))
    c.assumptions += ["The encryption primitives are the installed BoringSSL's; that they are secure is assumed.",
                      "CBOR is read and written by a stand-in for libcppbor written for the harness."]


def run_check(c, trace):
    c.build("d_run")
    c.mc("RunImpl")
    if c.thorough:
        c.mc("RunImpl", "RunImpl_thorough.cfg")
    todo = [(cmd + [os.path.join(c.work, "scratch")], t) for cmd, t in
            jobs(c, "d_run", (("tidy", 150), ("mix", 250), ("multi", 200)), c.pick(10, 40))]
    c.validate(trace, c.drive_all(todo, timeout=120))
    c.assumptions += ["The model is a stand-in that reads examples and answers as scripted; TensorFlow is not installed.",
                      "Server, device, slices and history store are scripted; the protocol itself is the subject of other checks.",
                      "Files and tensors are written by stand-ins for TensorFlow's checkpoint writer and the aggregation core."]


@check("C28")
def c28(c):
    run_check(c, "FlRunTrace")


@check("C29")
def c29(c):
    run_check(c, "RunDataTrace")


@check("C30")
def c30(c):
    run_check(c, "RunRecordTrace")


@check("C31")
def c31(c):
    c.build("d_run")
    c.mc("LocalRunImpl")
    if c.thorough:
        c.mc("LocalRunImpl", "LocalRunImpl_thorough.cfg")
    todo = [(cmd + [os.path.join(c.work, "scratch")], t) for cmd, t in jobs(c, "d_run", (("local", 900),), c.pick(8, 40))]
    c.validate("LocalRunTrace", c.drive_all(todo, timeout=120))
    c.assumptions += ["The model is a stand-in that reads examples and answers as scripted; TensorFlow is not installed.",
                      "The build has no engine for plans without a TFLite graph, as the repository's own default."]


@check("C32")
def c32(c):
    c.build("d_attest")
    c.mc("AttestImpl", "AttestImpl_thorough.cfg" if c.thorough else "AttestImpl.cfg")
    c.validate("AttestTrace", c.drive_all(jobs(c, "d_attest", (("verify", 1500),), c.pick(4, 30)), timeout=120))
    c.assumptions += ["Whether evidence holds is decided by a scripted stand-in for the Rust verification library.",
                      "Evidence, endorsements and reference values are opaque bytes; CBOR is read by a stand-in for libcppbor.",
                      "Signatures are those of the installed BoringSSL."]


@check("C33")
def c33(c):
    c.build("d_attest")
    c.mc("AttestLogImpl", "AttestLogImpl_thorough.cfg" if c.thorough else "AttestLogImpl.cfg")
    c.validate("AttestLogTrace", c.drive_all(jobs(c, "d_attest", (("log", 1500),), c.pick(4, 30)), timeout=120))
    c.assumptions += ["Foreign lines never hold both the tag and an opening bracket.",
                      "Different records share no line of the log."]


@check("C34")
def c34(c):
    c.build("d_host")
    c.mc("HostObjectsImpl", "HostObjectsImpl_thorough.cfg" if c.thorough else "HostObjectsImpl.cfg")
    c.validate("HostObjectsTrace", c.drive_all(jobs(c, "d_host", (("objects", 300), ("storm", 50)), c.pick(6, 40)), timeout=120))
    c.assumptions += ["Threads are scheduled by the operating system; three of them per run.",
                      "Registered objects are never null."]


@check("C27")
def c27(c):
    c.build("d_curl")
    c.mc("HttpClientImpl")
    c.mc("HttpClientImpl", "HttpClientImpl_batch.cfg")
    if c.thorough:
        c.mc("HttpClientImpl", "HttpClientImpl_thorough.cfg")
    c.validate("HttpClientTrace", c.drive_all(jobs(c, "d_curl", (("mixed", 250), ("faults", 250), ("cancel", 40)), c.pick(3, 20)), timeout=200))
    c.probe([c.bin("d_curl"), os.path.join(c.work, "colon.ndjson"), str(c.seed), "3", "colon"], "header-colon",
            "the value of a response header is cut at its second colon (Date: Mon, 16 Nov 2026 03:04:05 GMT)")
    c.assumptions += ["The server is a scripted one on the loopback interface, speaking HTTP/1.1 without TLS.",
                      "The installed libcurl performs the transfers.",
                      "A callback that was on its way while another thread cancelled may still arrive."]


def py_jobs(c, driver, modes, k, env=None):
    """The same for the drivers of the Python services."""
    e = dict(PYTHONPATH=c.tree, PYTHONDONTWRITEBYTECODE="1", **(env or {}))
    out = []
    for i in range(k):
        for mode, runs in modes:
            t = "%s/%s%d.ndjson" % (c.work, mode, i)
            out.append((["/opt/fcp/pyvenv/bin/python", "-W", "ignore", os.path.join(c.tree, driver + ".py"), t,
                         str(c.seed * 100 + i), str(runs), mode], t, e))
    return out


@check("C20")
def c20(c):
    c.build_py()
    c.mc("AggSessionImpl")
    if c.thorough:
        c.mc("AggSessionImpl", "AggSessionImpl_thorough.cfg")
    c.validate("AggSessionTrace", c.drive_all(py_jobs(c, "d_aggsession", (("mix", 200), ("crowd", 200)), c.pick(3, 20)), timeout=150))
    c.assumptions += ["The compiled aggregation protocol is replaced by a stand-in with its interface that keeps the inputs.",
                      "Threads are switched at lock operations, at calls into the protocol and between lines of the service."]


@check("C21")
def c21(c):
    c.build_py()
    c.mc("TasksImpl")
    if c.thorough:
        c.mc("TasksImpl", "TasksImpl_thorough.cfg")
    c.validate("TasksTrace", c.drive_all(py_jobs(c, "d_tasks", (("mix", 400), ("server", 60)), c.pick(3, 20)), timeout=150))
    c.assumptions += ["Running the plan's graphs and adding tensors are replaced by stand-ins; everything else is the server's code.",
                      "The runs over HTTP leave the interleaving to the threads of the server and the clients."]


@check("C22")
def c22(c):
    c.build_py()
    c.mc("MediaImpl")
    c.validate("MediaTrace", c.drive_all(py_jobs(c, "d_media", (("sched", 300), ("http", 40)), c.pick(3, 20)), timeout=150))
    c.assumptions += ["Threads are switched at lock operations and between lines of the service."]


@check("C23")
def c23(c):
    c.build_py()
    path = os.path.join(c.work, "requests.ndjson")
    c.mc("HttpGatewayImpl", env=dict(REQUESTS=path))
    traces = c.drive_all(py_jobs(c, "d_gateway", (("mix", 60),), c.pick(3, 20))
                         + py_jobs(c, "d_gateway", (("file", 1),), 1, dict(REQUESTS=path, LIMIT=str(c.pick(1500, 10000)))))
    c.validate("HttpGatewayTrace", traces)
    c.assumptions += ["Requests come over the loopback interface without TLS, one per connection.",
                      "JSON bodies and replies are those of the protobuf library."]


@check("C24")
def c24(c):
    c.build("d_trace")
    c.mc("TracingImpl")
    c.mc("TracingImpl", "TracingImpl_local.cfg")
    c.validate("TracingTrace", c.drive_all(jobs(c, "d_trace", (("global", 120), ("local", 120), ("vanish", 60), ("ids", 3)), c.pick(3, 20))))
    c.assumptions += ["Threads run freely; what was in force during a call may be any recorder installed at some time meanwhile.",
                      "Recorders are observed through a listener or through the text they write."]


vlib.main(TABLE)
