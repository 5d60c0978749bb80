"""Scenarios of kind "async": a life history whose asynchronous calls run with their real reader and writer processes
under a controller, which decides at every operation on queues and files who continues.

The gates are put into multiprocessing and PyTables, not into hpelm."""
import os, sys, json, time, select, signal, socket, threading, struct, traceback
import numpy as np
import driver


class Gates(object):
    def __init__(self, path):
        self.path = path
        self.me = None
        self.sock = None
        self.on = False
        self.depth = 0
        self.nq = 0

    def link(self):
        me = (os.getpid(), threading.get_ident())
        if self.me != me:
            if self.sock is not None:
                self.sock.close()
            self.me = me
            self.depth = 0
            self.sock = socket.socket(socket.AF_UNIX, socket.SOCK_SEQPACKET)
            self.sock.connect(self.path)
        return self.sock

    def point(self, kind, name="", rows=0, **kw):
        s = self.link()
        s.send(json.dumps(dict(kw, kind=kind, name=name, rows=int(rows), pid=os.getpid())).encode())
        d = s.recv(4096)
        if not d:
            os._exit(4)
        return json.loads(d)

    def active(self):
        # only threads that the controlled program runs on: the main threads of its processes
        return self.on and not self.depth and threading.current_thread() is threading.main_thread()

    def call(self, kind, f, a, kw, name="", before=0, after=None, **info):
        g = self
        if g.point("B " + kind, name, before, **info) == "fail":
            raise OSError("Input/output error (injected)")
        g.depth += 1
        try:
            r = f(*a, **kw)
        finally:
            g.depth -= 1
        g.point("A " + kind, name, before if after is None else after(r), **info)
        return r

    def install(self):
        import multiprocessing as mp, multiprocessing.queues, multiprocessing.process, tables, queue
        g = self
        Q = mp.queues.Queue
        qinit, qput, qget = Q.__init__, Q.put, Q.get

        def init(s, *a, **kw):
            qinit(s, *a, **kw)
            g.nq += 1
            s._hv = "q%d" % g.nq

        def put(s, obj, block=True, timeout=None):
            if not g.active():
                return qput(s, obj, block, timeout)
            n = rows_in(obj)
            cmd = g.point("B put", s._hv, n, cap=s._maxsize, wait=bool(block and timeout is None))
            if cmd == "busy":
                raise queue.Full
            if cmd == "fail":
                raise MemoryError("injected")
            g.depth += 1
            try:
                qput(s, obj, block, timeout)
            finally:
                g.depth -= 1
            g.point("A put", s._hv, n, cap=s._maxsize)

        def get(s, block=True, timeout=None):
            if not g.active():
                return qget(s, block, timeout)
            cmd = g.point("B get", s._hv, 0, wait=bool(block and timeout is None))
            if cmd == "busy":
                raise queue.Empty
            if cmd == "fail":
                raise MemoryError("injected")
            g.depth += 1
            try:
                # an item that a killed process has put may never arrive
                r = qget(s, True, .5 if cmd == "try" else None)
            except queue.Empty:
                g.point("A lost", s._hv)
                raise
            finally:
                g.depth -= 1
            g.point("A get", s._hv, rows_in(r))
            return r
        Q.__init__, Q.put, Q.get = init, put, get
        P = mp.process.BaseProcess
        start, join, run = P.start, P.join, P.run

        def pstart(s):
            if not g.active():
                return start(s)
            g.point("B start", "")
            g.depth += 1
            try:
                start(s)
            finally:
                g.depth -= 1
            g.point("A start", str(s.pid), child=s.pid)

        def pjoin(s, timeout=None):
            if not g.active() or s.pid is None:
                return join(s, timeout)
            cmd = g.point("B join", str(s.pid), child=s.pid, wait=timeout is None)
            if cmd == "fail":
                raise MemoryError("injected")
            g.depth += 1
            try:
                r = join(s, 0.01 if cmd == "busy" else timeout)
            finally:
                g.depth -= 1
            g.point("A join", str(s.pid), child=s.pid)
            return r

        def prun(s):
            g.depth = 0
            if g.on:
                g.point("B run", "")
            return run(s)
        P.start, P.join, P.run = pstart, pjoin, prun
        A = tables.Array
        for attr, kind in (("__getitem__", "read"), ("read", "read"), ("__setitem__", "write")):
            self.wrap_array(A, attr, kind)
        self.wrap_array(tables.EArray, "append", "write")

    def wrap_array(self, A, attr, kind):
        f = getattr(A, attr)
        g = self

        def w(s, *a, **kw):
            if not g.active():
                return f(s, *a, **kw)
            name = os.path.basename(s._v_file.filename)
            if kind == "write":
                n = np.shape(a[-1])[0] if np.ndim(a[-1]) else 1
                return g.call("write", f, (s,) + a, kw, name, n)
            return g.call("read", f, (s,) + a, kw, name, 0, lambda r: np.shape(r)[0] if np.ndim(r) else 1)
        setattr(A, attr, w)


def rows_in(obj):
    if isinstance(obj, np.ndarray) and obj.ndim:
        return obj.shape[0]
    if isinstance(obj, (tuple, list)):
        return sum(rows_in(x) for x in obj if isinstance(x, np.ndarray))
    return 0


def main_process(sc, scratch, hp, path, result):
    """runs the history, with gates during the asynchronous calls"""
    g = Gates(path)
    try:
        driver.EVENT_TIMEOUT = 0
        g.install()
        real = driver.run_event

        def run_event(w, e, hp):
            import multiprocessing as mp
            if not e.get("async_"):
                return real(w, e, hp)
            m = w.models.get(e["m"])
            call = {"add": "add_data_async", "train": "train_async", "predict": "predict_async"}[e["op"]]
            f = getattr(m, call)

            def gated(*a, **kw):
                g.on = True
                g.point("B begin", e["op"], 0, batch=int(kw.get("batch", m.batch)))
                try:
                    return f(*a, **kw)
                finally:
                    left = len(mp.active_children())
                    g.point("B end", e["op"], left)
                    g.on = False
                    for p in mp.active_children():
                        p.kill()
                        p.join()
            setattr(m, call, gated)
            try:
                return real(w, e, hp)
            finally:
                delattr(m, call)
        driver.run_event = run_event
        driver.run_life(sc, scratch, hp)
        with open(result, "w") as f:
            json.dump(sc, f)
    except BaseException:
        traceback.print_exc(file=sys.stderr)
    finally:
        os._exit(0)


SLOW = [float(os.environ.get("GATE_TIMEOUT", "12"))]       # a process that does not reach a gate in this time is blocked


CANFAIL = (("B put", "B get", "B join"), ("B read", "B write"))        # of the main process and of the others


class Part(object):
    """a participating process"""

    def __init__(self, sock):
        self.sock = sock
        self.state = "run"
        self.at = None
        self.name = "?"
        self.tries = 0
        self.lost = 0
        self.polls = 0


def run_async(sc, scratch, hp):
    path = os.path.join(scratch, "sock")
    result = os.path.join(scratch, "result")
    work = os.path.join(scratch, "w")
    os.makedirs(work)
    srv = socket.socket(socket.AF_UNIX, socket.SOCK_SEQPACKET)
    srv.bind(path)
    srv.listen(64)
    pid = os.fork()
    if pid == 0:
        os.setpgid(0, 0)
        signal.setitimer(signal.ITIMER_REAL, 0)
        srv.close()
        main_process(dict(sc), work, hp, path, result)
    slow = SLOW[0]
    parts = []
    bypid = {}
    size, children, exited = {}, [], set()
    expected = 0            # started children that did not connect yet
    flow = []
    order = list(sc.get("match", []))
    prio = sc.get("prio")
    rng = np.random.RandomState(sc["rseed"]) if "rseed" in sc else None
    steps = 0
    deadlock = ""
    fault, calls, faulted = False, 0, set()
    t_main = [None]

    def log(p, kind, rows=0, **kw):
        flow.append(dict(kw, op=kind, who=p.name, rows=int(rows)))

    def main_ended():
        if t_main[0] is None:
            r, _ = os.waitpid(pid, os.WNOHANG)
            if r == 0:
                return False
            t_main[0] = True
        return True

    def pump(timeout):
        fds = {srv: None}
        fds.update({p.sock: p for p in parts if p.state != "dead"})
        rd, _, _ = select.select(list(fds), [], [], timeout)
        for s in rd:
            if s is srv:
                c, _ = srv.accept()
                parts.append(Part(c))
                continue
            p = fds[s]
            try:
                d = s.recv(65536)
            except OSError:
                d = b""
            if not d:
                p.state = "dead"
                s.close()
                if p.name != "M":
                    exited.add(p.pid)
                    log(p, "exit")
                continue
            p.at = json.loads(d)
            p.pid = p.at["pid"]
            if p.name == "?":
                if p.pid == pid:
                    p.name = "M"
                else:
                    expect[0] -= 1
                    if p.pid not in children:
                        children.append(p.pid)
                    p.name = "P%d" % (children.index(p.pid) + 1)
            p.state = "wait"
        return bool(rd)

    expect = [0]

    def settle():
        t = time.time()
        while not main_ended():
            if not any(p.state == "run" for p in parts) and expect[0] <= 0 and any(p.name == "M" and p.state != "dead" for p in parts):
                break
            if not pump(0.2) and time.time() - t > slow:
                break
        pump(0)

    def fire(p, how):
        """the process is killed, or its next operation fails"""
        nonlocal fault, calls
        fault = True
        if calls:
            flow.append({"op": "fault", "who": p.name, "rows": 0, "how": how, "at": p.at["kind"]})
            faulted.add(calls)
        if how == "kill":
            os.kill(p.pid, signal.SIGKILL)
        else:
            p.sock.send(json.dumps("fail").encode())
        p.state = "run"
        p.at = None
        settle()

    def enabled(p):
        if p.state != "wait":
            return False
        k, a = p.at["kind"], p.at
        if k == "B put":
            ok = a["cap"] <= 0 or size.get(a["name"], 0) < a["cap"] or a["cap"] > 10**6
        elif k == "B get":
            ok = size.get(a["name"], 0) > 0
        elif k == "B join":
            ok = a["child"] in exited
        else:
            return True
        return ok or (not a["wait"] and p.tries < 3)

    def go(p):
        nonlocal steps, calls, fault, deadlock
        k, a = p.at["kind"], p.at
        cmd = "go"
        if k == "B begin":
            calls += 1
            fault = False
            p.tries = p.lost = p.polls = 0
            log(p, "begin", 0, batch=a["batch"], call=a["name"])
            children.clear()
        elif k == "B end":
            log(p, "end", 0, left=a["rows"])
        elif k == "B put":
            if a["cap"] <= 0 or a["cap"] > 10**6 or size.get(a["name"], 0) < a["cap"]:
                size[a["name"]] = size.get(a["name"], 0) + 1
                log(p, "put", a["rows"], q=a["name"])
            else:
                cmd = "busy"
                p.tries += 1
        elif k == "B get":
            if size.get(a["name"], 0) > 0:
                size[a["name"]] -= 1
                if fault and not a["wait"]:
                    cmd = "try"
            else:
                cmd = "busy"
                p.tries += 1
        elif k == "A lost":
            size[a["name"]] += 1
            p.lost += 1
            if p.lost > 12:
                deadlock = "waits for an item of a dead process"
        elif k == "A get":
            log(p, "get", a["rows"], q=a["name"])
        elif k == "B join":
            if a["child"] not in exited:
                cmd = "busy"
                p.tries += 1
        elif k == "A start":
            if a["child"] not in children:
                children.append(a["child"])
                # it has usually not connected yet
            log(p, "start")
        elif k == "A read":
            log(p, "read", a["rows"], file=a["name"])
        elif k == "B write":
            log(p, "write", a["rows"], file=a["name"])
        if k == "B start":
            expect[0] += 1
        if cmd != "busy":
            for x in parts:
                x.polls = 0
        p.state = "run"
        p.at = None
        try:
            p.sock.send(json.dumps(cmd).encode())
        except OSError:
            pass
        settle()

    settle()
    cur = None
    limit = time.time() + 100
    while not main_ended() and not deadlock:
        live = [p for p in parts if p.state == "wait"]
        q = next((p for p in live if p.at["kind"][0] == "A" or p.at["kind"] in ("B begin", "B run", "B start")), None)
        if q is None and order and order[0][1] in ("kill", "fail"):
            who, kind = order[0]
            vic = next((p for p in live if p.name == who), None)
            if vic is not None and kind == "fail" and vic.at["kind"] not in CANFAIL[who != "M"] and enabled(vic):
                go(vic)
                continue
            order.pop(0)
            if vic is not None and (kind == "kill" or vic.at["kind"] in CANFAIL[who != "M"]):
                fire(vic, kind)
            continue
        if q is None:
            en = [p for p in live if enabled(p)]
            if not en:      # only operations with a timeout: let them look around
                en = [p for p in live if not p.at.get("wait", True) and p.polls < 150]
                for p in en:
                    p.polls += 1
                if en and en[0].polls > 3:      # a killed process is not gone at once
                    pump(.05)
            if not en:
                t = time.time()
                while time.time() - t < slow and not main_ended():
                    stuck = all(p.state in ("wait", "dead") for p in parts) and any(p.name == "M" and p.state == "wait" for p in parts)
                    if pump(0.3 if not stuck else 0.05):
                        break
                    if stuck:
                        t = 0
                else:
                    if not main_ended():
                        deadlock = json.dumps([[p.name, p.state, p.at and [p.at["kind"], p.at["name"]]] for p in parts])
                        break
                continue
            steps += 1
            by = {p.name: p for p in en}
            if order:
                who, kind = order[0]
                alive = [p for p in parts if p.name == who and p.state != "dead"]
                if who not in by:
                    order.pop(0)
                    continue
                cur = by[who]
                if cur.at["kind"][2:] == kind:
                    order.pop(0)
            elif rng is not None:
                if cur not in en or rng.rand() < sc.get("rp", .3):
                    cur = en[rng.randint(len(en))]
            elif prio:
                cur = min(en, key=lambda p: prio.index(p.name) if p.name in prio else 99)
            elif cur not in en:
                cur = en[0]
            q = cur
        go(q)
        if time.time() > limit:
            deadlock = "too long"
            break
    if deadlock:
        SLOW[0] = 3
        flow.append({"op": "deadlock", "who": "", "rows": 0, "where": deadlock})
    try:
        os.killpg(pid, signal.SIGKILL)
    except OSError:
        pass
    if t_main[0] is None:
        os.waitpid(pid, 0)
    for p in parts:
        if p.state != "dead":
            p.sock.close()
    srv.close()
    if os.path.exists(result) and not deadlock:
        with open(result) as f:
            r = json.load(f)
        sc["events"] = r["events"]
    else:
        for e in sc["events"]:
            e.update(exc="HANG" if deadlock else "DIED", ret={}, mut=False, obs={}, files=[])
    for i, e in enumerate([e for e in sc["events"] if e.get("async_")]):
        e["fault"] = i + 1 in faulted
    # do the counted rows add up, so that differences mean rows in flight?
    def total(kind, main):
        return sum(f["rows"] for f in flow if f["op"] == kind and (f["who"] == "M") == main)
    sc["xflow"] = total("read", False) == total("get", True) > 0
    sc["wflow"] = total("write", False) == total("put", True) > 0
    sc["flow"] = flow
    sc["steps"] = steps


RUNNERS = {"async": run_async}
