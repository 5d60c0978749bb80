"""Machinery shared by all checks: run scenarios on the real code, validate the
recorded traces with TLC, run exhaustive TLC models, write evidence."""
import os, sys, json, re, subprocess, tempfile, time, shutil, threading

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("HPELM_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
LIB = os.path.join(VERIF, "lib")
PY = "/opt/venv/bin/python"
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
CPUS = min(8, os.cpu_count() or 1)


class MachineryError(Exception):
    pass


def env_for_code(scratch, extra=None):
    env = dict(os.environ)
    env.update(PYTHONPATH=REPO + os.pathsep + LIB, PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1",
               OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1", TMPDIR=scratch, PYTHONHASHSEED="0",
               HDF5_USE_FILE_LOCKING=env.get("HDF5_USE_FILE_LOCKING", ""))
    if not env["HDF5_USE_FILE_LOCKING"]:
        env.pop("HDF5_USE_FILE_LOCKING")
    env.update(extra or {})
    return env


class Scratch(object):
    def __enter__(self):
        self.path = tempfile.mkdtemp(prefix="hv_")
        return self.path

    def __exit__(self, *a):
        shutil.rmtree(self.path, ignore_errors=True)


def run_driver(scenarios, scratch, modules="", nproc=None, event_timeout=60, scenario_timeout=300):
    """Runs scenarios in parallel driver processes; returns the list of traces in scenario order.
    A scenario during which the driver died or stopped responding gets a last event DIED / HANG."""
    nproc = max(1, min(nproc or CPUS, len(scenarios)))
    results = {}
    lock = threading.Lock()
    errors = []

    def worker(k):
        todo = scenarios[k::nproc]
        rnd = 0
        while todo:
            rnd += 1
            base = tempfile.mkdtemp(prefix="w%d_%d_" % (k, rnd), dir=scratch)
            src, dst = base + "/in", base + "/out"
            with open(src, "w") as f:
                for s in todo:
                    f.write(json.dumps(s) + "\n")
            open(dst, "w").close()
            env = env_for_code(base, {"DRIVER_MODULES": modules, "EVENT_TIMEOUT": str(event_timeout)})
            err = open(base + "/err", "w")
            p = subprocess.Popen([PY, os.path.join(LIB, "driver.py"), src, dst, base], env=env, cwd=base,
                                 stdout=subprocess.DEVNULL, stderr=err, start_new_session=True)
            size, t0, hung = -1, time.time(), False
            while p.poll() is None:
                time.sleep(0.02)
                s = os.path.getsize(dst)
                if s != size:
                    size, t0 = s, time.time()
                elif time.time() - t0 > scenario_timeout:
                    hung = True
                    break
            try:
                os.killpg(p.pid, 9)
            except OSError:
                pass
            p.wait()
            err.close()
            done = []
            with open(dst) as f:
                for line in f:
                    if line.endswith("\n"):
                        done.append(json.loads(line))
            with lock:
                for d in done:
                    results[d["id"]] = d
            if len(done) == len(todo):
                break
            if not os.path.exists(dst + ".cur"):
                errors.append("driver did not start: " + open(base + "/err").read()[-1500:])
                return
            s = dict(todo[len(done)])
            etext = open(base + "/err").read()[-1500:]
            if "driver.py" in etext and "Traceback" in etext:
                # an exception outside of the calls under test: the observation itself failed
                s["driver_error"] = etext
            s["events"] = [dict(e, exc="HANG" if hung else "DIED", ret={}, mut=False, obs={}, files=[]) for e in s["events"]]
            with lock:
                results[s["id"]] = s
            todo = todo[len(done) + 1:]
            if rnd >= 4:        # enough to report; the others would take too long
                return

    ths = [threading.Thread(target=worker, args=(k,)) for k in range(nproc)]
    for t in ths:
        t.start()
    for t in ths:
        t.join()
    if errors:
        raise MachineryError(errors[0])
    return [results[s["id"]] for s in scenarios if s["id"] in results]


STAT = re.compile(r"(\d+) states generated(?: \([^)]*\))?, (\d+) distinct states found")


class TlcResult(object):
    def __init__(self, text, code, wall):
        self.text, self.code, self.wall = text, code, wall
        self.generated = self.distinct = 0
        for m in STAT.finditer(text.replace(",", "") if False else re.sub(r"(\d),(\d{3})", r"\1\2", text)):
            self.generated, self.distinct = int(m.group(1)), int(m.group(2))
        self.bad = []
        self.prints = []
        for line in text.splitlines():
            line = line.strip()
            if line.startswith('"') and line.endswith('"'):
                try:
                    s = json.loads(line)
                except ValueError:
                    s = line[1:-1].replace('\\"', '"')
                self.prints.append(s)
                if s.startswith("BAD "):
                    self.bad.append(json.loads(s[4:]))
        self.violated = re.findall(r"Invariant (\w+) is violated|Temporal propert(?:y|ies) (\w*) ?(?:was|were) violated|Action property (\w+)", text)
        self.ok = code == 0


def run_tlc(module, cfg=None, env=None, args=(), timeout=800, workers=None, scratch=None, heap="6g", cwd=SPEC):
    own = None
    if scratch is None:
        own = scratch = tempfile.mkdtemp(prefix="hvtlc_")
    e = dict(os.environ)
    e.update(env or {})
    meta = tempfile.mkdtemp(prefix="meta", dir=scratch)
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-Djava.io.tmpdir=" + scratch,
           "-cp", TLA_CP, "tlc2.TLC", "-metadir", meta, "-workers", str(workers or CPUS), "-noGenerateSpecTE",
           "-config", cfg or module + ".cfg"] + list(args) + [module + ".tla"]
    t0 = time.time()
    p = subprocess.Popen(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                         start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
        code = p.returncode
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        out, _ = p.communicate()
        code = -9
    shutil.rmtree(meta, ignore_errors=True)
    if own:
        shutil.rmtree(own, ignore_errors=True)
    return TlcResult(out, code, time.time() - t0)


def _tla_cp():
    p = shutil.which("tlc")
    jars = []
    if p:
        txt = open(os.path.realpath(p), errors="replace").read()
        jars = re.findall(r"[\w/.\-]+\.jar", txt)
    jars = [j for j in jars if os.path.exists(j)]
    for j in ("/opt/veriftools/tla/tla2tools.jar",):
        if os.path.exists(j) and j not in jars:
            jars.insert(0, j)
    base = "/opt/veriftools/tla"
    if os.path.isdir(base):
        for f in sorted(os.listdir(base)):
            if f.endswith(".jar") and os.path.join(base, f) not in jars:
                jars.append(os.path.join(base, f))
    return ":".join(jars)


TLA_CP = _tla_cp()


def validate(module, traces, scratch, timeout=800, cfg=None, env=None, chunk=None):
    """Validates traces (list of dicts) with a trace specification.  Returns (bad list, states, transitions).
    bad items: [trace id, event number, op, labels]."""
    bad, states, trans = [], 0, 0
    parts = [traces[i:i + (chunk or 2000)] for i in range(0, len(traces), chunk or 2000)]
    n = unev = 0
    while parts:
        part = parts.pop(0)
        n += 1
        path = os.path.join(scratch, "traces_%s_%d.ndjson" % (module, n))
        with open(path, "w") as f:
            for t in part:
                f.write(json.dumps(clean(t)) + "\n")
        e = dict(env or {})
        e["TRACES"] = path
        r = run_tlc(module, cfg=cfg, env=e, scratch=scratch, timeout=timeout)
        os.unlink(path)
        if not r.ok:
            # an observation outside of everything that the specification can evaluate is no behaviour of it
            if EVALERR.search(r.text) and "OutOfMemory" not in r.text and "StackOverflow" not in r.text:
                unev += len(part) == 1
                if unev > 2:
                    break
                if len(part) == 1:
                    bad.append([part[0]["id"], 0, "?", ["unevaluable: " + tail(r.text)[:300]]])
                else:
                    parts[:0] = [part[:len(part) // 2], part[len(part) // 2:]]
                continue
            raise MachineryError("TLC failed on %s (exit %s):\n%s" % (module, r.code, tail(r.text)))
        if not r.bad:
            expect = sum(len(t["events"]) + 1 for t in part)
            if r.distinct != expect:
                raise MachineryError("TLC consumed %d states, %d expected, in %s\n%s" % (r.distinct, expect, module, tail(r.text)))
        bad += list({json.dumps(b): b for b in r.bad}.values())
        states += r.distinct
        trans += r.generated
    return bad, states, trans


EVALERR = re.compile(r"unexpected exception|Attempted to|evaluating|[Oo]verflow|not in the domain|TLC encountered")


def clean(x):
    """drops null values, which the TLC JSON reader does not know"""
    if isinstance(x, dict):
        return {k: clean(v) for k, v in x.items() if v is not None}
    if isinstance(x, list):
        return [clean(v) for v in x]
    return x


def tail(s, n=3000):
    lines = [l for l in s.splitlines() if not l.startswith('"')]
    t = "\n".join(lines)
    i = t.find("Error:")
    if i < 0:
        return t[-n:]
    t = t[i:]
    j, k = t.find("The behavior up to this point"), t.find("Error: The error occurred")
    if j >= 0:
        t = t[:j] + " ... " + (t[k:] if k >= 0 else t[-1000:])
    return t[:n]
