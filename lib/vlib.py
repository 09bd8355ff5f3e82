"""Shared machinery of the checks: build, run drivers, run TLC, write evidence.

Exit codes: 0 held, 1 violation (after a VIOLATION line), 2 error of the check.
"""
import concurrent.futures
import json
import os
import re
import shutil
import subprocess
import sys
import time

ROOT = os.path.realpath(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
SPEC = os.path.join(ROOT, "spec")
BUILD = os.path.join(ROOT, "build")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
KNOWN = os.path.join(ROOT, "known_findings.txt")
JOBS = 7


class CheckError(Exception):
    """The check itself failed: no verdict."""


def log(*a):
    print("[%s]" % time.strftime("%H:%M:%S"), *a, flush=True)


class Check:
    def __init__(self, pid, level="model_checking"):
        self.pid = pid
        self.level = level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.t0 = time.time()
        self.work = os.path.join(BUILD, "work", pid)
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.replays = os.path.join(ROOT, "evidence", "replay")
        os.makedirs(self.replays, exist_ok=True)
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.events = 0
        self.trace_states = 0
        self.samples = []
        self.assumptions = []
        self.hangs = 0
        self.given_up = False
        self.violations = []
        self.extra = {}
        self.distinct = set()

    @property
    def thorough(self):
        return self.tier == "thorough"

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    # ---- build -------------------------------------------------------------
    def build(self, *targets):
        bdir = os.path.join(BUILD, "cmake")
        os.makedirs(bdir, exist_ok=True)
        t = time.time()
        env = dict(os.environ, CCACHE_DISABLE="1")
        cfg = subprocess.run(
            ["cmake", "-S", os.path.join(ROOT, "harness"), "-B", bdir, "-G", "Ninja",
             "-DCMAKE_CXX_COMPILER=/usr/bin/g++"],
            stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env)
        if cfg.returncode:
            raise CheckError("cmake failed:\n" + cfg.stdout[-4000:])
        r = subprocess.run(["ninja", "-C", bdir, "-j8"] + list(targets),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env)
        if r.returncode:
            raise CheckError("build failed:\n" + r.stdout[-6000:])
        log("built", " ".join(targets), "in %.1fs" % (time.time() - t))
        return bdir

    def build_py(self):
        """A tree of Python modules with the demo's sources and the drivers."""
        out = os.path.join(self.work, "py")
        r = subprocess.run(["bash", os.path.join(ROOT, "harness", "py", "build.sh"), out],
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        if r.returncode:
            raise CheckError("building the Python tree failed:\n" + r.stderr[-4000:])
        self.tree = r.stdout.strip().splitlines()[-1]

    def bin(self, name):
        return os.path.join(BUILD, "cmake", name)

    # ---- TLC -----------------------------------------------------------------
    def _java(self, args, env=None, timeout=None, heap="2g", gc="-XX:+UseSerialGC", cwd=SPEC):
        meta = os.path.join(self.work, "meta%d" % time.time_ns())
        os.makedirs(meta)
        cmd = ["java", gc, "-Xmx" + heap, "-Xss16m", "-XX:TieredStopAtLevel=4", "-cp", JARS,
               "tlc2.TLC", "-metadir", meta, "-noGenerateSpecTE"] + args
        try:
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                               cwd=cwd, env=dict(os.environ, **(env or {})), timeout=timeout)
            return r.returncode, r.stdout
        except subprocess.TimeoutExpired as e:
            out = e.stdout or ""
            if isinstance(out, bytes):
                out = out.decode(errors="replace")
            return -9, out
        finally:
            shutil.rmtree(meta, ignore_errors=True)

    def mc(self, module, cfg=None, workers=JOBS, timeout=600, heap="8g", args=(), env=None):
        """Exhaustive model checking of the specification itself."""
        t = time.time()
        cfg = cfg or module + ".cfg"
        rc, out = self._java(["-workers", str(workers), "-config", cfg, *args, module + ".tla"],
                             env=env, timeout=timeout, heap=heap, gc="-XX:+UseParallelGC")
        m = re.search(r"(\d+) states generated, (\d+) distinct states found, (\d+) states left", out)
        if rc != 0 or not m or int(m.group(3)) != 0:
            raise CheckError("model checking of %s/%s failed (rc=%s):\n%s" % (module, cfg, rc, out[-5000:]))
        gen, distinct = int(m.group(1)), int(m.group(2))
        self.states += distinct
        self.transitions += gen
        log("model %s (%s): %d distinct states, %d transitions, %.1fs" % (module, cfg, distinct, gen, time.time() - t))
        return distinct, gen

    def simulate(self, module, cfg, num, depth, seed, env=None, timeout=300):
        """TLC -simulate; the module prints/serialises behaviours itself."""
        rc, out = self._java(["-workers", "1", "-config", cfg, "-simulate", "num=%d" % num,
                              "-depth", str(depth), "-seed", str(seed), module + ".tla"],
                             env=env, timeout=timeout)
        if rc != 0:
            raise CheckError("simulation of %s failed (rc=%s):\n%s" % (module, rc, out[-4000:]))
        return out

    # ---- drivers ---------------------------------------------------------------
    def drive(self, argv, trace, timeout=300, env=None, what=None, retry=True):
        """Runs a driver that writes its trace to `trace`. A crash or hang that
        repeats is a violation (the code under test died)."""
        what = what or os.path.basename(next((a for a in argv if a.endswith(".py")), argv[0]))

        def once():
            try:
                r = subprocess.run(argv, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                                   env=dict(os.environ, **(env or {})), timeout=timeout, cwd=self.work)
                return r.returncode, r.stdout.decode(errors="replace")
            except subprocess.TimeoutExpired as e:
                return "hang", (e.stdout or b"").decode(errors="replace")

        if self.given_up:
            return False
        t = time.time()
        rc, out = once()
        if rc == 0:
            log("driver %s: ok in %.1fs" % (what, time.time() - t))
            return True
        if rc == 3:
            raise CheckError("driver %s reports a harness problem:\n%s" % (what, out[-3000:]))
        if rc == "hang":
            # Two runs that hang need not be repeated.
            self.hangs += 1
            time.sleep(2)
        if rc == "hang" and self.hangs > 1:
            rc2, out2 = rc, out
        else:
            log("driver %s ended with %s; repeating" % (what, rc))
            rc2, out2 = once()
        if rc2 == 0:
            # Not repeated: still a crash of the code under test, but schedule dependent.
            rc3, out3 = once()
            if rc3 == 0 and rc in (-4, -6, -7, -8, -11):
                rc3, out3 = rc, out
            if rc3 == 0:
                raise CheckError("driver %s ended with %s once and did not repeat it:\n%s" % (what, rc, out[-3000:]))
            rc2, out2 = rc3, out3
        tail = []
        if os.path.exists(trace):
            with open(trace, errors="replace") as f:
                tail = f.readlines()[-60:]
        if rc2 == "hang":
            self.given_up = True  # the others would take as long
        self.violation("%s ended with %s " % (what, rc2),
                       "command: %s\nenv: %s\n--- output\n%s\n--- end of trace\n%s" % (
                           " ".join(argv), env, out2[-3000:], "".join(tail)))
        return False

    def drive_all(self, jobs, timeout=200, par=JOBS):
        """jobs: list of (argv, trace[, env]). Returns the traces of drivers that ended well."""
        ok = []
        with concurrent.futures.ThreadPoolExecutor(par) as ex:
            fs = [(j, ex.submit(self.drive, j[0], j[1], timeout, j[2] if len(j) > 2 else None)) for j in jobs]
            for j, f in fs:
                if f.result():
                    ok.append(j[1])
        return ok

    # ---- trace validation --------------------------------------------------------
    def _tlc_trace(self, module, path, cfg=None, timeout=600, env=None, heap="3g"):
        """Returns (max l, len, error text or None)."""
        e = {"TRACE": path}
        e.update(env or {})
        rc, out = self._java(["-workers", "1", "-config", cfg or module + ".cfg", module + ".tla"],
                             env=e, timeout=timeout, heap=heap)
        m = re.search(r'<<"MAXL", (\d+), (\d+)>>', out)
        if m:
            l, n = int(m.group(1)), int(m.group(2))
            if l != n + 1 or "No error has been found" in out:
                return l, n, None if l == n + 1 else "not accepted"
            if "is violated" in out or "Error:" in out:
                return l, n, "invariant"
            return l, n, None
        if rc == -9:
            raise CheckError("TLC timed out on %s %s" % (module, path))
        # An invariant or assertion failed, or an event could not be interpreted.
        m = re.search(r"Error: (Invariant|Action property|The behavior|Evaluating|Attempted|TLC threw|The first argument|.*)", out)
        fatal = ("Parsing or semantic analysis failed", "OutOfMemory", "Could not find", "Parse Error",
                 "Unknown operator", "java.lang.NoClassDefFoundError", "ConfigFileException",
                 "StackOverflow", "FileNotFound")
        if m and not any(x in out for x in fatal):
            ls = re.findall(r"/\\ l = (\d+)", out)
            l = int(ls[-1]) if ls else 1
            n = sum(1 for _ in open(path))
            return l, n, out[-6000:]
        raise CheckError("TLC failed on %s %s:\n%s" % (module, path, out[-5000:]))

    def _chunks(self, traces, max_events):
        """Splits traces at run boundaries into files of at most max_events lines."""
        chunks, cur, idx = [], [], 0
        out = []

        def flush():
            nonlocal cur, idx
            if cur:
                p = os.path.join(self.work, "chunk%d_%d.ndjson" % (time.time_ns(), idx))
                with open(p, "w") as f:
                    f.writelines(cur)
                out.append(p)
                idx += 1
                cur = []

        for tr in traces:
            run = []
            with open(tr) as f:
                for line in f:
                    if line.startswith('{"e":"reset"'):
                        if run:
                            if len(cur) + len(run) > max_events:
                                flush()
                            cur.extend(run)
                            self._count_run(run)
                        run = []
                    if line.endswith("\n"):
                        run.append(line)
            if run:
                if len(cur) + len(run) > max_events:
                    flush()
                cur.extend(run)
                self._count_run(run)
        flush()
        return out

    def _count_run(self, run):
        if len(run) > 1:
            self.traces += 1
            self.events += len(run) - 1
            self.distinct.add(hash("".join(run[1:])))
            if len(self.samples) < 3 and (self.traces % 7 == 1):
                s = "".join(run[:14]).strip()
                self.samples.append(s[:1500])

    def validate(self, module, traces, max_events=12000, cfg=None, par=JOBS, timeout=600, env=None,
                 heap="3g", label=None):
        """Every recorded run must be a behaviour of the specification."""
        t = time.time()
        before = (self.traces, self.events)
        chunks = self._chunks(traces, max_events)
        if not chunks and self.violations:
            return False
        if not chunks:
            raise CheckError("no trace was recorded for " + module)
        bad = []
        with concurrent.futures.ThreadPoolExecutor(par) as ex:
            for path, (l, n, err) in zip(chunks, ex.map(
                    lambda p: self._tlc_trace(module, p, cfg, timeout, env, heap), chunks)):
                self.trace_states += l
                if err:
                    bad.append((path, l, n, err))
                else:
                    os.unlink(path)
        log("validated %d runs, %d events against %s in %d chunks, %.1fs, %d rejected" % (
            self.traces - before[0], self.events - before[1], module, len(chunks), time.time() - t, len(bad)))
        for path, l, n, err in bad[:3]:
            self._report_rejection(module, path, l, err, cfg, env, timeout, label)
        return not bad

    def _report_rejection(self, module, path, l, err, cfg, env, timeout, label):
        lines = open(path).readlines()
        i = min(l, len(lines)) - 1
        start = i
        while start > 0 and not lines[start].startswith('{"e":"reset"'):
            start -= 1
        end = start + 1
        while end < len(lines) and not lines[end].startswith('{"e":"reset"'):
            end += 1
        run = lines[start:end]
        single = os.path.join(self.work, "reject%d.ndjson" % time.time_ns())
        with open(single, "w") as f:
            f.writelines(run)
        l2, n2, err2 = self._tlc_trace(module, single, cfg, timeout, env)
        if not err2:
            # Perhaps the failing position was misjudged: re-validate the whole chunk.
            l3, n3, err3 = self._tlc_trace(module, path, cfg, timeout, env)
            if not err3:
                raise CheckError("rejection by %s did not repeat (%s)" % (module, path))
            run, l2, err2 = lines, l3, err3
        stop = run[min(l2, len(run)) - 1] if run else ""
        self.violation("%s rejects event %d of a recorded run: %s" % (label or module, l2, stop.strip()[:600]),
                       "".join(run[:min(l2 + 1, len(run))]) + (
                           "\n--- TLC\n" + err2 if len(err2) > 20 else ""))

    def violation(self, what, detail):
        n = len(self.violations)
        path = os.path.join(self.replays, "%s-%d-%d.txt" % (self.pid, self.seed, n))
        with open(path, "w") as f:
            f.write("property %s tier %s seed %d\n%s\n\n%s\n" % (self.pid, self.tier, self.seed, what, detail))
        self.violations.append((what, path))

    # ---- evidence and verdict ------------------------------------------------------
    def known(self):
        """Lines of the known-findings file that concern this property."""
        if not os.path.exists(KNOWN):
            return []
        out = []
        for line in open(KNOWN):
            line = line.strip()
            if line.startswith("finding:") and ("property=%s " % self.pid) in line:
                out.append(line)
        return out

    def probe(self, argv, key, what, timeout=120, env=None):
        """Runs a program that shows a known finding (exit other than 0: it fails).
        key identifies the finding in the known-findings file."""
        e = dict(os.environ)
        e.update(env or {})
        try:
            r = subprocess.run(argv, env=e, timeout=timeout, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            rc, out = r.returncode, r.stdout.decode(errors="replace")
        except subprocess.TimeoutExpired:
            rc, out = -99, "no end within %d s" % timeout
        if rc == 0:
            return
        if rc == 3:
            raise CheckError("driver problem: " + out[-2000:])
        if any(key in line for line in self.known()):
            print("KNOWN-FINDING: property=%s %s" % (self.pid, what), flush=True)
        else:
            self.violation(what, "%s\nexit %d\n%s" % (" ".join(argv), rc, out[-4000:]))

    def finish(self):
        cov = dict(states=self.states, transitions=self.transitions,
                   traces_validated_against_impl=self.traces,
                   events_validated=self.events,
                   distinct_runs=len(self.distinct),
                   samples=self.samples or ["(none)"])
        if self.level in ("exploration", "fault_enumeration"):
            cov.update(evaluations=self.traces, distinct_nontrivial=len(self.distinct),
                       rule=self.extra.pop("rule", "a run is non-trivial if it has at least one call after the reset; "
                                           "distinct if its recorded events differ"))
        cov.update(self.extra)
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=self.level, coverage=cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 1),
                  violations=len(self.violations))
        p = os.path.join(ROOT, "evidence", self.pid + ".json")
        with open(p + ".tmp", "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(p + ".tmp", p)
        shutil.rmtree(self.work, ignore_errors=True)
        for what, path in self.violations:
            log("violation:", what)
            print("VIOLATION property=%s replay=%s" % (self.pid, path), flush=True)
        log("%s %s: %s in %.1fs" % (self.pid, self.tier, "VIOLATED" if self.violations else "held", time.time() - self.t0))
        sys.exit(1 if self.violations else 0)


def main(table):
    if len(sys.argv) != 2 or sys.argv[1] not in table:
        print("usage: check.py <property>; known: " + " ".join(sorted(table)))
        sys.exit(2)
    pid = sys.argv[1]
    c = None
    try:
        c = Check(pid)
        table[pid](c)
        c.finish()
    except CheckError as e:
        log("ERROR of the check:", e)
        if c and c.violations:
            c.finish()
        sys.exit(2)
