"""Scenarios of kind "accum": several processes accumulate into the same pair of files.

Real forked processes call HPELM.add_data; they stop before and after every operation on the shared files and lock
files (patched in the libraries, not in hpelm), and a controller decides who continues, who is killed (SIGKILL) and
where an operation fails."""
import os, sys, json, time, select, signal, traceback
import numpy as np
import driver
from driver import v3m, bits, read_h5

FAIL_EXC = OSError
# operations that can fail before or after they had an effect; locks and close are not made to fail
FAIL_B = ("B copy", "B open", "B read", "B write", "B flush", "B rename")
FAIL_A = ("A copy", "A read", "A write", "A flush", "A rename")


class Gate(object):
    """child side"""

    def __init__(self, rfd, wfd, root):
        self.r, self.w, self.root = rfd, wfd, root
        self.depth = 0
        self.buf = b""

    def say(self, msg):
        os.write(self.w, (json.dumps(msg) + "\n").encode())

    def hear(self):
        while b"\n" not in self.buf:
            d = os.read(self.r, 4096)
            if not d:
                os._exit(3)
            self.buf += d
        line, self.buf = self.buf.split(b"\n", 1)
        return json.loads(line)

    def point(self, kind, name, ok=True):
        self.say(["gate", kind, name, bool(ok)])
        cmd = self.hear()
        if cmd == "kill":
            os.kill(os.getpid(), signal.SIGKILL)
        if cmd == "fail":
            raise FAIL_EXC("injected failure")
        return cmd

    def mine(self, path):
        try:
            p = os.path.realpath(os.fspath(path))
        except TypeError:
            return None
        if isinstance(p, bytes):
            p = p.decode(errors="replace")
        return os.path.relpath(p, self.root) if p.startswith(self.root + os.sep) else None

    def wrap(self, owner, attr, kind, namer):
        f = getattr(owner, attr)
        g = self

        def wrapped(*a, **kw):
            if g.depth:
                return f(*a, **kw)
            try:
                name = g.mine(namer(*a, **kw))
            except Exception:
                name = None
            if name is None:
                return f(*a, **kw)
            g.point("B " + kind, name)
            g.depth += 1
            try:
                res = f(*a, **kw)
            finally:
                g.depth -= 1
            g.point("A " + kind, name)
            return res
        setattr(owner, attr, wrapped)

    def wrap_acquire(self, owner):
        """blocking acquire is enabled only while nobody holds the lock; other kinds can also give up"""
        f = owner.acquire
        g = self

        def acquire(s, *a, **kw):
            name = None if g.depth else g.mine(s.path)
            if name is None:
                return f(s, *a, **kw)
            blocking = kw.get("blocking", a[0] if a else True)
            timeout = kw.get("timeout", a[3] if len(a) > 3 else None)
            cmd = g.point("B lock" if blocking and timeout is None else "B trylock", name)
            if cmd == "busy":
                return False
            g.depth += 1
            ok = False
            try:
                ok = f(s, *a, **kw)
            finally:
                g.depth -= 1
                if not ok:
                    g.point("A lock", name, False)
            g.point("A lock", name, ok)
            return ok
        owner.acquire = acquire

    def install(self):
        import fasteners, tables, fcntl, shutil
        L = fasteners.InterProcessLock
        self.wrap_acquire(L)
        self.wrap(L, "release", "unlock", lambda s, *a, **k: s.path)
        self.wrap(tables.File, "__init__", "open", lambda s, filename, *a, **k: filename)
        self.wrap(tables.File, "close", "close", lambda s, *a, **k: s.filename)
        self.wrap(tables.File, "flush", "flush", lambda s, *a, **k: s.filename)
        self.wrap(tables.Array, "__getitem__", "read", lambda s, *a, **k: s._v_file.filename)
        self.wrap(tables.Array, "__setitem__", "write", lambda s, *a, **k: s._v_file.filename)
        self.wrap(os.path, "isfile", "isfile", lambda p: p)
        self.wrap(os.path, "exists", "isfile", lambda p: p)
        self.wrap(shutil, "copyfile", "copy", lambda a, b, *c, **k: b)
        self.wrap(os, "rename", "rename", lambda a, b, *c, **k: b)
        self.wrap(os, "replace", "rename", lambda a, b, *c, **k: b)
        self.wrap(os, "remove", "remove", lambda p, *a, **k: p)
        self.wrap(os, "unlink", "remove", lambda p, *a, **k: p)


def make_model(sc, hp):
    w = np.array(sc["w"][0], dtype=float) / sc["w"][1] if sc["w"] else None
    m = hp.HPELM(sc["d"], sc["c"], norm=sc["norm"] / 4. if sc["norm"] >= 0 else None, precision="single" if sc["prec"] == 32 else "double", classification=sc["cls"], w=w,
                 batch=sc.get("batch", 1000), accelerator=sc.get("solver") or None)
    k = sc.get("dup", 1)        # copies of every neuron, for large matrices with few different elements
    m.add_neurons(len(sc["W"]) * k, "lin", np.repeat(np.array(sc["W"], dtype=float).T, k, axis=1), np.repeat(np.array(sc["b"], dtype=float) / 1024, k))
    return m


def files(sc, root):
    """data files of the calls that read them"""
    allc = sc.get("pre", []) + [c for p in sc["calls"] for c in p] + ([sc["probe"]] if sc.get("probe") else [])
    at = 0
    for i, c in enumerate(allc):
        c["at"] = at
        at += len(c["X"])
        if c["src"] == "h5":
            for k in "XT":
                driver.write_h5(os.path.join(root, "%s%d.h5" % (k, i)), np.array(c[k], dtype=float) / 2)
            c["id"] = str(i)
    for k in "XT":
        driver.write_h5(os.path.join(root, k + ".h5"), np.array([r for c in allc for r in c[k]], dtype=float) / 2)


def call(m, c, data, fHH, fHT):
    X, T = np.array(c["X"], dtype=float) / 2, np.array(c["T"], dtype=float) / 2
    kw = {}
    if c["src"] != "arr":
        X, T = [os.path.join(data, k + c.get("id", "") + ".h5") for k in "XT"]
    if c["src"] == "rng":
        kw = dict(istart=c["at"], icount=len(c["X"]))
    (m.add_data_async if c["async_"] else m.add_data)(X, T, fHH=fHH, fHT=fHT, **kw)


def child(sc, p, root, data, rfd, wfd, hp):
    g = Gate(rfd, wfd, root)
    try:
        cwd = os.path.join(root, "cwd%d" % p)        # contributors need not run in one directory
        os.makedirs(cwd, exist_ok=True)
        os.chdir(cwd)
        m = make_model(sc, hp)
        g.install()
        fHH, fHT = os.path.join(root, "HH.h5"), os.path.join(root, "HT.h5")
        for k, c in enumerate(sc["calls"][p]):
            g.point("B call", "call")
            try:
                call(m, c, data, fHH, fHT)
                exc = ""
            except Exception as e:
                exc = type(e).__name__ + ": " + str(e)[:80]
                if os.environ.get("DRIVER_TB"):
                    traceback.print_exc(file=sys.stderr)
            g.say(["end", k, exc])
            if exc:
                g.hear_stay = True
                break
        g.say(["done"])
        g.hear()            # stays alive until everybody is done
    finally:
        os._exit(0)


def reduce_dup(HH, HT, n, k, c, norm):
    if HH.shape != (n * k, n * k) or HT.shape != (n * k, c):
        return HH[:3], HT[:3]
    HH = HH - norm * np.eye(n * k)
    A = HH.reshape(n, k, n, k)
    B = HT.reshape(n, k, c)
    if (abs(A - A[:, :1, :, :1]) > 1e-5 * (1 + abs(A))).any() or (abs(B - B[:, :1]) > 1e-5 * (1 + abs(B))).any():
        raise IOError("contributions are there only in a part of the matrix")
    return A[:, 0, :, 0] + norm * np.eye(n), B[:, 0]


SLOW = [float(os.environ.get("GATE_TIMEOUT", "12"))]       # a process that does not reach a gate in this time is blocked


class Proc(object):
    def __init__(self, p):
        self.p = p
        self.at = None          # (kind, name) of the gate where it waits
        self.state = "run"      # run, wait, done, dead, blocked
        self.ngate = 0
        self.tries = 0
        self.written = {}       # file -> "dirty", "done" during the current call
        self.buf = b""


def run_accum(sc, scratch, hp):
    root, data = [os.path.join(os.path.realpath(scratch), x) for x in ("shared", "data")]
    os.mkdir(root)
    os.mkdir(data)
    files(sc, data)
    np_ = len(sc["calls"])
    fHH, fHT = os.path.join(root, "HH.h5"), os.path.join(root, "HT.h5")
    m0 = make_model(sc, hp)
    for c in sc.get("pre", []):
        call(m0, c, data, fHH, fHT)
    ev = []
    gates = []
    procs = []
    for p in range(np_):
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        pid = os.fork()
        if pid == 0:
            signal.setitimer(signal.ITIMER_REAL, 0)
            os.close(w1)
            os.close(r2)
            for q in procs:
                os.close(q.cmd)
                os.close(q.rep)
            child(sc, p, root, data, r1, w2, hp)
        os.close(r1)
        os.close(w2)
        q = Proc(p)
        q.pid, q.cmd, q.rep = pid, w1, r2
        procs.append(q)
    holder = {}
    faults = {(f["p"], f["gate"]): f["kind"] for f in sc.get("faults", [])}
    switch = {int(k): v for k, v in sc.get("switch", {}).items()}
    order = list(sc.get("order", []))
    match = list(sc.get("match", []))
    where = []
    rng = np.random.RandomState(sc["rseed"]) if "rseed" in sc else None
    slow = SLOW[0]

    def pump(timeout):
        """reads messages of running processes"""
        fds = {q.rep: q for q in procs if q.state in ("run", "blocked")}
        if not fds:
            return False
        rd, _, _ = select.select(list(fds), [], [], timeout)
        for fd in rd:
            q = fds[fd]
            d = os.read(fd, 65536)
            if not d:
                q.state = "dead"
                os.waitpid(q.pid, 0)
                ev.append({"op": "died", "p": q.p + 1, "killed": q.killed if hasattr(q, "killed") else False})
                for k in [k for k, v in holder.items() if v is q]:
                    del holder[k]
                continue
            q.buf += d
            while b"\n" in q.buf:
                line, q.buf = q.buf.split(b"\n", 1)
                msg = json.loads(line)
                if msg[0] == "end":
                    ev.append({"op": "end", "p": q.p + 1, "call": msg[1] + 1, "exc": msg[2], "failed": bool(getattr(q, "failed", False))})
                elif msg[0] == "done":
                    q.state = "done"
                else:
                    q.at = (msg[1], msg[2])
                    q.ok = msg[3]
                    q.state = "wait"
        return bool(rd)

    def settle():
        """waits until the running process stops at a gate, ends, or is blocked outside of the gates"""
        t = time.time()
        while any(q.state == "run" for q in procs):
            if not pump(0.5) and time.time() - t > slow:
                for q in procs:
                    if q.state == "run":
                        q.state = "blocked"
        pump(0)

    def stage(q, f):
        # what a failing process has written gets to the disk when it closes the file
        done = ("done",) if f == "kill" else ("done", "dirty")
        hh, ht = q.written.get("HH.h5"), q.written.get("HT.h5")
        return "before HH" if hh not in done else "between HH and HT" if ht not in done else "after HT"

    def fault(q, kind, name, f):
        where.append("%s at %s %s, %s" % (f, kind, name, stage(q, f)))
        if f == "kill":
            q.killed = True
        else:
            q.failed = True
        return f

    def advance(q, kill=False):
        kind, name = q.at
        q.ngate += 1
        gates.append([q.p + 1, kind, name])
        f = "kill" if kill else faults.get((q.p, q.ngate))
        cmd = "go"
        if kind == "B call":
            q.written = {}
            q.readed = set()
        if kind == "A read":
            q.readed.add(name)
        if kind == "A write" and name in q.readed:          # and not creation of a new file
            q.written[name] = "dirty"
        if kind in ("A flush", "A close") and name in q.written:
            q.written[name] = "done"
        if kind == "A rename" and any(k.startswith(name) for k in q.written):
            q.written[name] = "done"
        if f == "kill":
            cmd = fault(q, kind, name, f)
        elif f == "fail" and (kind in FAIL_B or kind in FAIL_A):
            cmd = fault(q, kind, name, f)
        elif kind in ("B lock", "B trylock"):
            if holder.get(name) in (None, q):
                holder[name] = q
            else:
                q.tries += 1
                cmd = "busy"
        elif kind == "A lock" and not q.ok and holder.get(name) is q:
            del holder[name]
        elif kind == "A unlock" and holder.get(name) is q:
            del holder[name]
        q.state = "run"
        q.at = None
        os.write(q.cmd, (json.dumps(cmd) + "\n").encode())
        settle()

    def enabled(q):
        if q.state != "wait":
            return False
        held = holder.get(q.at[1]) not in (None, q)
        return not (held and (q.at[0] == "B lock" or q.at[0] == "B trylock" and q.tries >= 3))

    settle()
    cur = None
    step = 0
    limit = time.time() + 50
    hang = False
    while True:
        # gates after an operation are not scheduling points
        q = next((q for q in procs if q.state == "wait" and q.at[0].startswith("A ")), None)
        if q is None:
            en = [q for q in procs if enabled(q)]
            if not en:
                if any(q.state == "blocked" for q in procs):
                    settle_t = time.time()
                    while time.time() - settle_t < slow and not pump(0.5):
                        pass
                    if any(enabled(q) for q in procs):
                        continue
                hang = any(q.state in ("wait", "blocked", "run") for q in procs)
                break
            step += 1
            if rng is not None:
                if cur not in en or rng.rand() < sc.get("rp", 0.3):
                    cur = en[rng.randint(len(en))]
            elif match:
                # follow a behaviour of the specification: [process, kind, file] steps
                p, kind, name = match[0]
                w = procs[p - 1]
                if kind == "kill" and w.state == "wait":
                    match.pop(0)
                    advance(w, True)
                    continue
                if w.state in ("done", "dead") or not enabled(w):
                    match.pop(0)
                    continue
                cur = w
                if [w.at[0][2:], w.at[1]] == [kind, name]:
                    match.pop(0)
            else:
                if step in switch and procs[switch[step]] in en:
                    cur = procs[switch[step]]
                elif order:
                    w = procs[order.pop(0)]
                    if w in en:
                        cur = w
                if cur not in en:
                    cur = en[0]
            q = cur
        advance(q)
        if time.time() > limit:
            hang = True
            break
    if hang:
        SLOW[0] = 3
        ev.append({"op": "hang", "p": 0, "where": json.dumps([[q.p + 1, q.state, q.at] for q in procs])})
    for q in procs:
        if q.state != "dead":
            if hang:
                os.kill(q.pid, signal.SIGKILL)
            else:
                os.write(q.cmd, b'"exit"\n')
    probe = {"op": "probe", "p": 0, "exc": "", "failed": False}
    if not hang and sc.get("probe") is not None:
        pid = os.fork()
        if pid == 0:
            rc = 1
            try:
                signal.setitimer(signal.ITIMER_REAL, 0)
                signal.alarm(10)
                signal.signal(signal.SIGALRM, signal.SIG_DFL)
                call(make_model(sc, hp), sc["probe"], data, fHH, fHT)
                rc = 0
            except BaseException:
                if os.environ.get("DRIVER_TB"):
                    traceback.print_exc(file=sys.stderr)
            finally:
                os._exit(rc)
        _, st = os.waitpid(pid, 0)
        if st != 0:
            probe["exc"] = "failed"
        ev.append(probe)
    for q in procs:
        os.close(q.cmd)
        os.close(q.rep)
        if q.state != "dead":
            try:
                os.waitpid(q.pid, 0)
            except ChildProcessError:
                pass
    f = {"op": "files", "p": 0, "HH": [], "HT": [], "err": ""}
    try:
        HH, HT = read_h5(fHH), read_h5(fHT)
        if sc.get("dup", 1) > 1:
            HH, HT = reduce_dup(HH, HT, len(sc["W"]), sc["dup"], sc["c"], float(m0.nnet.norm))
        f["HH"], f["HT"] = v3m(HH), v3m(HT)
    except Exception as e:
        f["err"] = str(e)[:100]
    f["where"] = "; ".join(where)
    ev.append(f)
    sc["events"] = ev
    sc["gates"] = gates
    sc["steps"] = step


RUNNERS = {"accum": run_accum}
