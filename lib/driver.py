"""Runs scenarios on the real hpelm and records what happened as traces.

usage: driver.py SCENARIOS.ndjson TRACES.ndjson SCRATCH
Every scenario is {"id", "kind", "events": [...]}; the output line is the same
with outcomes added to every event.  Only public interfaces of hpelm are used.
"""
import sys, os, json, math, signal, hashlib, warnings, shutil, contextlib, io, traceback
import numpy as np

warnings.simplefilter("ignore")
np.seterr(all="ignore")

HUGE = 999999999


class Hang(BaseException):
    pass


def on_alarm(sig, frm):
    raise Hang()


EVENT_TIMEOUT = float(os.environ.get("EVENT_TIMEOUT", "60"))


def v3(x):
    x = float(x)
    if not math.isfinite(x) or abs(x) > 1e8:
        return [HUGE, 0, 0]
    n = int(round(x * 90000))
    p, r = divmod(n, 90000)
    q, r = divmod(r, 300)
    return [p, q, r]


def v3m(a):
    a = np.asarray(a)
    return [[v3(x) for x in row] for row in a]


def v3v(a):
    return [v3(x) for x in np.asarray(a).ravel()]


def bits(dt):
    dt = np.dtype(dt)
    return {np.dtype(np.float32): 32, np.dtype(np.float64): 64}.get(dt, 1)


def clip(x):
    return int(max(-10**9, min(10**9, round(x)))) if math.isfinite(x) else HUGE


class World(object):
    def __init__(self, scratch):
        self.dir = scratch
        self.models = {}
        self.solvers = {}
        self.last = {}          # slot -> digest of last observation
        self.saved = {}
        self.n = 0
        self.rng = np.random.RandomState(0)
        self.args = []          # arguments of the current call
        self.files = []         # data files and arrays of earlier calls, given again with other contents
        self.buffers = {}
        self.openers = {}       # data file -> models that may have it open
        self.slot = ""

    def path(self, name):
        return os.path.join(self.dir, name)

    def fresh(self, ext):
        self.n += 1
        return self.path("d%d%s" % (self.n, ext))

    def data_file(self):
        """a new file name, or one that was given to an earlier call (its contents are replaced then)"""
        self.n += 1
        if self.files and self.n % 3 == 0:
            return self.files.pop(self.n // 3 % len(self.files))
        return self.path("d%d.h5" % self.n)

    def buffer(self, a):
        """the array, or an array object given to an earlier call with the values of this one"""
        k = (a.shape, a.strides, a.dtype.str)
        b = self.buffers.pop(k, None)
        if b is None:
            return a
        b.flags.writeable = True
        b[...] = a
        return b

    def give_back(self):
        for a in self.args:
            if a.path is not None:
                self.files.append(a.path)
            else:
                self.buffers[(a.arr.shape, a.arr.strides, a.arr.dtype.str)] = a.arr
        self.args = []


def import_hpelm():
    with contextlib.redirect_stdout(io.StringIO()):
        import hpelm
        from hpelm import ELM, HPELM
    return hpelm


# ------------------------------------------------------------ observation
def observe(m):
    nn = m.nnet
    groups = []
    bs = [bits(m.precision)]
    raw = hashlib.sha1()
    for n, f, W, b in nn.get_neurons():
        W = np.asarray(W)
        b = np.asarray(b)
        bs += [bits(W.dtype), bits(b.dtype)]
        h = hashlib.sha1()
        fname = f if isinstance(f, str) else getattr(f, "__name__", str(f))
        if not isinstance(f, str) and fname == "tanh":
            fname = "utanh"
        h.update(fname.encode())
        h.update(np.ascontiguousarray(W, dtype=np.float64).tobytes())
        h.update(np.ascontiguousarray(b, dtype=np.float64).tobytes())
        raw.update(h.digest())
        groups.append({"f": fname, "n": int(n), "W": [v3v(W[:, j]) for j in range(W.shape[1])], "b": v3v(b),
                       "dig": h.hexdigest()[:12], "posb": bool((b > 0).all())})
    B = nn.get_B()
    oB = []
    if B is not None:
        B = np.asarray(B)
        bs.append(bits(B.dtype))
        oB = v3m(B) if B.ndim == 2 else [[[HUGE, 0, 0]]]
        raw.update(B.tobytes())
    HH = HT = None
    try:
        HH, HT = nn.get_corr()
    except Exception:
        pass
    oHH, oHT = [], []
    if HH is not None and HT is not None:
        HH, HT = np.asarray(HH), np.asarray(HT)
        bs += [bits(HH.dtype), bits(HT.dtype)]
        oHH, oHT = v3m(HH), v3m(HT)
        raw.update(HH.tobytes())
        raw.update(HT.tobytes())
    norm = float(nn.norm)
    r64 = norm / np.finfo(np.float64).eps
    r32 = norm / np.finfo(np.float32).eps
    wc = [] if m.wc is None else v3v(m.wc)
    cls = m.classification
    o = {"d": int(nn.inputs), "c": int(nn.outputs), "groups": groups, "B": oB, "HH": oHH, "HT": oHT,
         "cls": "" if cls is None else str(cls), "wc": wc, "batch": int(m.batch),
         "nrm": {"r64": clip(r64) if abs(r64 - round(r64)) < 1e-6 * abs(r64) else -1,
                 "r32": clip(r32) if abs(r32 - round(r32)) < 1e-6 * abs(r32) else -1, "v": v3(norm)},
         "bits": sorted(set(bs))}
    raw.update(json.dumps([o["d"], o["c"], o["cls"], o["wc"], o["batch"], norm, o["bits"]]).encode())
    return o, raw.hexdigest()


def observe_all(w, own):
    res = {}
    for s, m in w.models.items():
        o, dig = observe(m)
        o["solver"] = type(m.nnet) is w.solvers[s]
        same = w.last.get(s) == dig
        w.last[s] = dig
        if s == own or not same:
            o["same"] = same
            res[s] = o
        else:
            res[s] = {"same": True}
    return res


# ------------------------------------------------------------------- data
DT = {"f8": np.float64, "f4": np.float32, "i8": np.int64, "i4": np.int32, "u1": np.uint8, "b1": np.bool_, "i1": np.int8,
      "i2": np.int16, "u2": np.uint16, "F8": np.dtype(">f8"), "I4": np.dtype(">i4"), "F4": np.dtype(">f4")}


def layout(a, lay):
    if lay == "F":
        return np.asfortranarray(a)
    if lay == "S":      # strided view into a larger array
        if a.ndim == 1:
            big = np.full((a.shape[0] * 2,), 13, dtype=a.dtype)
            v = big[::2]
        else:
            big = np.full((a.shape[0] * 2, a.shape[1] * 3), 13, dtype=a.dtype)
            v = big[::2, 1::3]
        v[...] = a
        return v
    if lay == "N":      # negative strides
        return a[::-1].copy()[::-1]
    return np.ascontiguousarray(a).copy()


def write_h5(path, a, kind="carray"):
    import tables
    with tables.open_file(path, "w") as h5:
        if kind == "earray":
            e = h5.create_earray(h5.root, "mydata", tables.Atom.from_dtype(a.dtype), (0, a.shape[1]))
            e.append(a)
        elif kind == "array":
            h5.create_array(h5.root, "x", a)
        else:
            c = h5.create_carray(h5.root, "data", tables.Atom.from_dtype(a.dtype), a.shape,
                                 chunkshape=(max(1, a.shape[0] // 3), a.shape[1]))
            c[:] = a


class Arg(object):
    """One data argument: builds it from values and a form, detects modification, scribbles on it."""

    def __init__(self, w, vals, scale, form, desc=None):
        self.path = None
        self.arr = None
        self.keep = None
        form = form or {}
        if desc is not None and desc["kind"] in ("nofile", "badfile", "emptyfile"):
            self.path = w.fresh(".h5")
            if desc["kind"] == "badfile":
                with open(self.path, "w") as f:
                    f.write("this is not an HDF5 file\n")
            elif desc["kind"] == "emptyfile":
                import tables
                tables.open_file(self.path, "w").close()
            self.value = self.path
            self.digest = self._dig()
            return
        if vals is None:
            shape = (desc["rows"], desc["cols"])
            a = np.ones(shape)
        else:
            a = np.array(vals, dtype=np.float64)
            if a.size == 0:
                a = a.reshape(len(vals), 0)
            a = a / scale
        if desc is not None and desc["nd"] == 1:
            a = a.reshape(-1)
        elif desc is not None and desc["nd"] == 3:
            a = a[:, :, None]
        elif desc is not None and desc["nd"] == 0:
            a = np.float64(3.0)
        if desc is not None and desc["kind"] == "str":
            a = a.astype("U8") if isinstance(a, np.ndarray) else a
        elif desc is not None and desc["kind"] == "obj":
            a = a.astype(object)
        elif desc is not None and desc["kind"] == "list":
            self.value = a.tolist()
            return
        else:
            a = np.asarray(a).astype(DT[form.get("dt", "f8")])
        if form.get("src", "arr") == "h5":
            self.path = w.data_file()        # sometimes replaces a file that was used before
            write_h5(self.path + ".new", np.ascontiguousarray(a), form.get("h5", "carray"))
            os.rename(self.path + ".new", self.path)
            w.openers.setdefault(self.path, set()).add(w.slot)
            w.args.append(self)
            self.value = self.path
            self.digest = self._dig()
        else:
            if a.ndim in (1, 2):
                a = w.buffer(layout(a, form.get("lay", "C")))        # sometimes the same object with other contents
                w.args.append(self)
            self.arr = a
            self.keep = a.copy() if isinstance(a, np.ndarray) else a
            if form.get("ro") and isinstance(a, np.ndarray):
                a.flags.writeable = False
            self.value = a

    def _dig(self):
        try:
            with open(self.path, "rb") as f:
                return hashlib.sha1(f.read()).hexdigest()
        except IOError:
            return None

    def mutated(self):
        if self.path is not None:
            return self._dig() != self.digest
        if self.arr is not None and isinstance(self.arr, np.ndarray):
            return not (self.arr.shape == self.keep.shape and self.arr.dtype == self.keep.dtype and
                        self.arr.tobytes() == self.keep.tobytes())
        return False

    def scribble(self):
        if self.arr is not None and isinstance(self.arr, np.ndarray) and self.arr.flags.writeable:
            if self.arr.dtype.kind in "fiu":
                self.arr[...] = 77
            elif self.arr.dtype.kind == "b":
                self.arr[...] = ~self.arr


def read_h5(path):
    import tables
    with tables.open_file(path, "r") as h5:
        nodes = [n for n in h5.walk_nodes("/", classname="Leaf")]
        a = nodes[0][:]
        return a


def corr_obs(w, name):
    p1, p2 = w.path(name + ".HH.h5"), w.path(name + ".HT.h5")
    if not (os.path.exists(p1) or os.path.exists(p2)):
        return {"name": name, "exists": False}
    try:
        HH, HT = read_h5(p1), read_h5(p2)
        return {"name": name, "exists": True, "HH": v3m(HH), "HT": v3m(HT),
                "dt": bits(HH.dtype) if HH.dtype == HT.dtype else 1}
    except Exception as e:
        return {"name": name, "exists": True, "HH": [], "HT": [], "dt": 1, "err": repr(e)[:80]}


FUNCS = {"negative": np.negative, "absolute": np.absolute, "sign": np.sign, "floor": np.floor, "utanh": np.tanh}


def wcv(w):
    """class weights: [ints, den] -> array"""
    return np.array(w[0], dtype=np.float64) / w[1]


def kw_range(e, kw):
    if e.get("istart", 0) != 0 or e.get("icount", -1) >= 0 or e.get("pass_range"):
        kw["istart"] = e.get("istart", 0)
        if e.get("icount", -1) >= 0:
            kw["icount"] = e["icount"]
    return kw


def run_event(w, e, hp):
    """executes one event; returns (exc, ret, mutated)"""
    op = e["op"]
    args = []

    def A(vals, scale, form, desc=None):
        a = Arg(w, vals, scale, form, desc)
        args.append(a)
        return a.value

    ret = {}
    exc = ""
    scr = []
    w.slot = e["m"]
    m = w.models.get(e["m"])
    sync = not e.get("async_", False)
    try:
        if op == "new":
            kw = {}
            for s in w.openers.values():
                s.add("old")
            if e["cls_arg"] != "":
                kw["classification"] = e["cls_arg"]
            if e["w"]:
                wv = wcv(e["w"])
                kw["w"] = wv if e.get("wform", "arr") == "arr" else wv.tolist()
                if isinstance(kw["w"], np.ndarray):
                    scr.append(kw["w"])
            if e["solver"]:
                kw["accelerator"] = e["solver"]
            if e["prec_arg"] != "":
                kw["precision"] = {"np32": np.float32, "np64": np.float64}.get(e["prec_arg"], e["prec_arg"])
            if e["norm"] >= 0:
                kw["norm"] = e["norm"] // 4 if e["norm"] % 4 == 0 else e["norm"] / 4.
            if e["batch"] != 1000 or e.get("pass_batch"):
                kw["batch"] = e["batch"]
            if e.get("tp"):
                kw["tprint"] = 0         # report after every batch
            cl = hp.HPELM if e["hp"] else hp.ELM
            w.models[e["m"]] = cl(e["d"], e["c"], **kw)
            w.solvers[e["m"]] = type(w.models[e["m"]].nnet)
        elif op == "del":
            del w.models[e["m"]]
            w.last.pop(e["m"], None)
        elif op == "addn":
            f = FUNCS.get(e["f"], e["f"])
            if e["given"]:
                if e.get("wshape"):      # malformed shapes
                    W = np.ones(e["wshape"])
                    b = np.ones(e["bshape"])
                else:
                    W = np.array(e["W"], dtype=np.float64).T
                    b = np.array(e["b"], dtype=np.float64) / 1024
                form = e.get("form", {})
                W = layout(W.astype(DT[form.get("dt", "f8")]), form.get("lay", "C"))
                args_W = W
                scr += [W, b]
                kW, kb = W.copy(), b.copy()
                if e.get("wonly"):
                    m.add_neurons(e["n"], f, W=W)
                else:
                    m.add_neurons(e["n"], f, W, b)
                if kW.tobytes() != W.tobytes() or kb.tobytes() != b.tobytes():
                    e["mut_w"] = True
            else:
                if e.get("nshape") is not None:
                    m.add_neurons(e["nshape"], f)
                else:
                    m.add_neurons(e["n"], f)
        elif op == "add":
            X = A(e.get("X"), 2.0, e["xform"], e["xs"])
            T = A(e.get("T"), 2.0, e["tform"], e["ts"])
            kw = {}
            if e["hp"]:
                kw_range(e, kw)
                if e["corr"]:
                    kw["fHH"] = w.path(e["corr"] + ".HH.h5")
                    kw["fHT"] = w.path(e["corr"] + ".HT.h5")
            (m.add_data if sync else m.add_data_async)(X, T, **kw)
        elif op == "train":
            X = A(e.get("X"), 2.0, e["xform"], e["xs"])
            T = A(e.get("T"), 2.0, e["tform"], e["ts"])
            kw = {}
            if e["hp"]:
                kw_range(e, kw)
            if e["w"]:
                kw["w"] = wcv(e["w"])
                scr.append(kw["w"])
            if e["batch"] > 0:
                kw["batch"] = e["batch"]
            (m.train if sync else m.train_async)(X, T, *e["flags_arg"], **kw)
        elif op == "mss":
            X = A(e.get("X"), 2.0, e["xform"], e["xs"])
            T = A(e.get("T"), 2.0, e["tform"], e["ts"])
            kw = {}
            if e["w"]:
                kw["w"] = wcv(e["w"])
                scr.append(kw["w"])
            if e["batch"] > 0:
                kw["batch"] = e["batch"]
            if e["kmax"] > 0:
                kw["kmax"] = e["kmax"]
            if e["k"] > 0:
                kw["k"] = e["k"]
            if e.get("xvs") and not e["noval"]:
                kw["Xv"] = A(e.get("Xv"), 2.0, e["xvform"], e["xvs"])
                kw["Tv"] = A(e.get("Tv"), 2.0, e["tvform"], e["tvs"])
            r = m.train(X, T, *e["flags_arg"], **kw)
            if r is not None:
                ret = {"v": v3(r)}
        elif op == "solve":
            m.nnet.solve()
        elif op == "reset":
            m.nnet.reset()
        elif op == "setbatch":
            m.batch = e["batch"]
        elif op == "solvecorr":
            m.solve_corr(w.path(e["corr"] + ".HH.h5"), w.path(e["corr"] + ".HT.h5"))
        elif op == "valcorr":
            X = A(e.get("X"), 2.0, e["xform"], e["xs"])
            T = A(e.get("T"), 2.0, e["tform"], e["ts"])
            st = e["steps"]
            a = [] if st.get("default") else [(tuple(st["v"]) if st.get("tuple") else np.array(st["v"])) if st["vec"] else st["n"]]
            Ls, errs, confs = m.validation_corr(w.path(e["corr"] + ".HH.h5"), w.path(e["corr"] + ".HT.h5"), X, T, *a)
            errs = np.asarray(errs, dtype=np.float64)
            ret = {"Ls": [int(x) for x in Ls], "errs": v3v(errs), "amin": int(np.argmin(errs)) + 1, "confs": [v3m(C) for C in confs]}
        elif op == "setcorr":
            HH = np.array(e["HH"], dtype=np.float64)
            HT = np.array(e["HT"], dtype=np.float64)
            form = e.get("form", {})
            HH = layout(HH, form.get("lay", "C"))
            HT = layout(HT, form.get("lay", "C"))
            scr += [HH, HT]
            m.nnet.set_corr(HH, HT)
        elif op == "setB":
            B = np.array([[x[0] + x[1] / 300. + x[2] / 90000. for x in r] for r in e["B"]])
            scr.append(B)
            m.nnet.set_B(B)
        elif op in ("predict", "project"):
            X = A(e.get("X"), 2.0, e["xform"], e["xs"])
            f = m.predict if op == "predict" else m.project
            cols = m.nnet.outputs if op == "predict" else (m.nnet.L or 0)
            rest, dt = True, 0
            if not e["hp"]:
                Y = f(X)
            else:
                kw = kw_range(e, {})
                if e["out"] == "ret":
                    Y = f(X, **kw)
                    dt = bits(Y.dtype)
                elif e["out"] == "arr":
                    n = e["outrows"]
                    Y = np.full((n + e["extra"], cols), 12345.0, dtype=DT[e["outdt"]] if e.get("outdt") else m.precision)
                    Yarg = layout(Y, e.get("outlay", "C"))
                    if e.get("outnd") == 1:
                        Yarg = layout(Y[:, 0], e.get("outlay", "C"))
                    f(X, Yarg, **kw)
                    rest = bool((Yarg[n:] == 12345.0).all())
                    Y = Yarg[:n].reshape(n, cols)
                else:
                    out = w.path("out_%s.h5" % e["outname"])
                    own = [p for p in w.files if w.openers[p] == {e["m"]}]
                    if e.get("over") and own:       # a file this model has read before
                        out = own[-1]
                        w.files.remove(out)
                    if sync:
                        f(X, out, **kw)
                    else:
                        m.predict_async(X, out, **kw)
                    Y = read_h5(out)
                    dt = bits(Y.dtype)
            ret = {"Y": v3m(Y), "rest": rest, "dt": dt}
            if isinstance(Y, np.ndarray) and Y.flags.writeable:
                scr.append(Y)
        elif op == "error":
            T = A(e.get("T"), 2.0, e["tform"], e["ts"])
            Y = A(e.get("Y"), float(e["yone"]), e["yform"], e["ys"])
            kw = kw_range(e, {}) if e["hp"] else {}
            ret = {"v": v3(m.error(T, Y, **kw))}
        elif op == "confusion":
            T = A(e.get("T"), 2.0, e["tform"], e["ts"])
            Y = A(e.get("Y"), float(e["yone"]), e["yform"], e["ys"])
            C = m.confusion(T, Y)
            ret = {"Y": v3m(C)}
        elif op == "save":
            if e["how"] == "file":
                p = w.path("model_%s.pkl" % e["name"])
                m.save(p)
                w.saved[e["name"]] = ("file", p)
            else:
                w.saved[e["name"]] = ("bytes", m.dumps())
        elif op == "load":
            how = w.saved.get(e["name"], ("file", w.path("missing.pkl")))
            if how[0] == "file":
                m.load(how[1])
            else:
                m.loads(how[1])
        else:
            raise RuntimeError("unknown op " + op)
    except Hang:
        exc = "HANG"
    except Exception as ex:
        exc = type(ex).__name__
        e["excmsg"] = str(ex)[:200]
        if os.environ.get("DRIVER_TB"):
            traceback.print_exc(file=sys.stderr)
    except SystemExit:
        exc = "SystemExit"
    mut = any(a.mutated() for a in args) or bool(e.pop("mut_w", False))
    for a in args:
        a.scribble()
    w.give_back()
    for a in scr:
        if isinstance(a, np.ndarray) and a.flags.writeable and a.dtype.kind == "f":
            a[...] = 55
    return exc, ret, mut


def run_life(sc, scratch, hp):
    w = World(scratch)
    corr_names = sorted({e["corr"] for e in sc["events"] if e.get("corr")})
    last = {}
    np.random.seed(sc.get("seed", 0))
    for e in sc["events"]:
        signal.setitimer(signal.ITIMER_REAL, EVENT_TIMEOUT)
        try:
            exc, ret, mut = run_event(w, e, hp)
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
        e["exc"], e["ret"], e["mut"] = exc, ret, mut
        if exc in ("HANG",):
            e["obs"], e["files"] = {}, []
            return
        e["obs"] = observe_all(w, e["m"])
        e["files"] = []
        for n in corr_names:
            o = corr_obs(w, n)
            s = json.dumps(o, sort_keys=True)
            if last.get(n) != s or e.get("corr") == n:
                e["files"].append(o)
                last[n] = s
    w.models.clear()


RUNNERS = {"life": run_life}


def main():
    src, dst, scratch = sys.argv[1:4]
    signal.signal(signal.SIGALRM, on_alarm)
    hp = import_hpelm()
    for mod in os.environ.get("DRIVER_MODULES", "").split():
        RUNNERS.update(__import__(mod).RUNNERS)
    devnull = open(os.devnull, "w")
    real = sys.stdout
    sys.stdout = devnull
    count = 0
    with open(src) as f, open(dst, "a") as out:
        for line in f:
            sc = json.loads(line)
            count += 1
            d = os.path.join(scratch, "s%d" % count)
            os.makedirs(d)
            with open(dst + ".cur", "w") as c:
                c.write(str(sc["id"]))
            RUNNERS[sc["kind"]](sc, d, hp)
            out.write(json.dumps(sc) + "\n")
            out.flush()
            shutil.rmtree(d, ignore_errors=True)
    import multiprocessing as mp
    for p in mp.active_children():
        p.kill()
    os._exit(0)


if __name__ == "__main__":
    main()
