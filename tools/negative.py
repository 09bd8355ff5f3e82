#!/usr/bin/env python3
"""Runs every model with one guard switched off; TLC must find an error each time.

Not a registered check: it shows that the invariants of the models can fail.
usage: negative.py [module ...]; exit 1 if some switched-off guard goes unnoticed.
"""
import concurrent.futures
import os
import re
import shutil
import subprocess
import sys
import tempfile

SPEC = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "spec")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
OFF = "FALSE"
CASES = []


def add(module, const, values, cfg=None):
    for v in values:
        CASES.append((module, cfg or module + ".cfg", const, v))


add("AggSessionImpl", "Bug", ['"%s"' % b for b in "strand again early forget late reuse".split()])
add("HttpGatewayImpl", "Bug", ['"encoding"', '"search"'])
add("MediaImpl", "Bug", ['"%s"' % b for b in "nolock keep leak replace twice".split()])
add("RunImpl", "Bug", ['"%s"' % b for b in "swap meter text nofile single mixed giveup window unkept count sent twice anew".split()])
add("LocalRunImpl", "Bug", ['"%s"' % b for b in "careless silent unknown keys fewer both noconst cancel blame ok".split()])
add("AttestImpl", "Bug", ['"%s"' % b for b in "other cached status means parses unlisted early enc nokey alg noalg unsigned silent".split()])
add("AttestLogImpl", "Bug", ['"%s"' % b for b in "empty cut noise start keep eof".split()])
add("HostObjectsImpl", "Bug", ['"%s"' % b for b in "reuse late leak all locked kinds raw".split()])
add("TasksImpl", "Bug", ['"%s"' % b for b in "again byname first gap names newest order same".split()], "TasksImpl_thorough.cfg")
add("TracingImpl", "Bug", ['"%s"' % b for b in "sticky parent root shared".split()])
add("TracingImpl", "Bug", ['"count"'], "TracingImpl_local.cfg")
for const in "CheckArray CheckThird CheckKey".split():
    add("CoseImpl", const, [OFF])
add("EligImpl", "ByName", ["TRUE"])
for const in "FreshKey BindAad BindKeyAad BindEnc".split():
    add("EnvelopeImpl", const, [OFF])
for const in "CleanUp CheckClose".split():
    add("FedSelectImpl", const, [OFF])
for const in "ResultUsed CancelEarly StopOnRefusal FinalOnly LazyStart".split():
    add("HttpClientImpl", const, [OFF])
add("HttpClientImpl", "Detach", [OFF], "HttpClientImpl_batch.cfg")
add("OpStatsImpl", "ByFlag", ["TRUE"])
for const in "CheckFits CheckAll".split():
    add("PayloadImpl", const, [OFF])
add("SecTransImpl", "CheckLast", [OFF])


def run(case):
    module, cfg, const, value = case
    work = tempfile.mkdtemp()
    try:
        text = open(os.path.join(SPEC, cfg)).read()
        new = re.sub(r"(\b%s\s*=\s*)\S+" % const, lambda m: m.group(1) + value, text)
        if new == text:
            return case, "constant not found"
        for f in os.listdir(SPEC):
            if f.endswith(".tla"):
                shutil.copy(os.path.join(SPEC, f), work)
        with open(os.path.join(work, "neg.cfg"), "w") as f:
            f.write(new)
        env = dict(os.environ, REQUESTS=os.path.join(work, "requests.ndjson"))
        r = subprocess.run(["timeout", "600", "java", "-Xmx3g", "-cp", CP, "tlc2.TLC", "-workers", "2", "-metadir",
                            os.path.join(work, "meta"), "-config", "neg.cfg", module + ".tla"],
                           cwd=work, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        m = re.search(r"Error: ((Invariant|Action property|Temporal|Deadlock|Evaluating invariant).*)", r.stdout)
        return case, m.group(1) if m else "NOT NOTICED"
    finally:
        shutil.rmtree(work)


todo = [c for c in CASES if len(sys.argv) == 1 or c[0] in sys.argv[1:]]
missed = 0
with concurrent.futures.ThreadPoolExecutor(4) as ex:
    for (module, cfg, const, value), result in ex.map(run, todo):
        print("%-18s %-14s = %-10s %s" % (module, const, value, result), flush=True)
        missed += not re.match("Invariant|Action|Temporal|Deadlock|Evaluating", result)
print("%d models with a guard switched off, %d not noticed" % (len(todo), missed))
sys.exit(1 if missed else 0)
