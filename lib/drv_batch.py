"""Runs HPELM operations on HDF5 files and records which rows they read and write, and the memory they take.
Recording is done below PyTables' public interface, also in the processes that hpelm starts."""
import json, os, tracemalloc
import numpy as np
import tables
from driver import signal, EVENT_TIMEOUT, Hang

LOG = [None]        # path of the log while an operation runs


def note(arr, kind, rows, c0, c1):
    if LOG[0] is None:
        return
    line = json.dumps([os.path.abspath(arr._v_file.filename), kind, rows, c0, c1]) + "\n"
    fd = os.open(LOG[0], os.O_WRONLY | os.O_APPEND | os.O_CREAT, 0o644)
    try:
        os.write(fd, line.encode())
    finally:
        os.close(fd)


def ncols(arr):
    return int(arr.shape[1]) if len(arr.shape) > 1 else 1


def span(arr, rows, cols):
    cols = [int(c) for c in cols] if len(arr.shape) > 1 else [0]
    rows = [int(r) for r in rows]
    if rows and cols:
        return rows, min(cols), max(cols) + 1
    return [], 0, 0


def patch():
    A = tables.Array
    base = {n: getattr(A, n) for n in ("_g_read_slice", "_read_array", "_g_read_coords", "_g_read_selection",
                                       "_g_write_slice", "_g_write_coords", "_g_write_selection", "_append")}

    def r_slice(self, startl, stopl, stepl, nparr):
        ix = [range(int(a), int(b), int(c)) for a, b, c in zip(startl, stopl, stepl)]
        note(self, "r", *span(self, ix[0], ix[1] if len(ix) > 1 else [0]))
        return base["_g_read_slice"](self, startl, stopl, stepl, nparr)

    def r_array(self, start, stop, step, nparr):
        note(self, "r", *span(self, range(int(start), int(stop), int(step)), range(ncols(self))))
        return base["_read_array"](self, start, stop, step, nparr)

    def rows_of(self, coords):
        c = np.asarray(coords)
        return sorted(set(int(x) for x in (c[:, 0] if c.ndim > 1 else c)))

    def sel(self, selection):
        s = selection[0]
        return range(int(s[0]), int(s[0]) + int(s[1]) * max(1, int(s[2])), max(1, int(s[2]))) if len(s) > 2 else range(int(self.shape[0]))

    def r_coords(self, coords, nparr):
        note(self, "r", *span(self, rows_of(self, coords), range(ncols(self))))
        return base["_g_read_coords"](self, coords, nparr)

    def r_sel(self, selection, nparr):
        note(self, "r", list(range(int(nparr.shape[0] if nparr.ndim else 1))), 0, ncols(self))
        return base["_g_read_selection"](self, selection, nparr)

    def w_slice(self, startl, stepl, countl, nparr):
        ix = [range(int(a), int(a) + int(b) * int(c), int(b)) for a, b, c in zip(startl, stepl, countl)]
        note(self, "w", *span(self, ix[0], ix[1] if len(ix) > 1 else [0]))
        return base["_g_write_slice"](self, startl, stepl, countl, nparr)

    def w_coords(self, coords, nparr):
        note(self, "w", *span(self, rows_of(self, coords), range(ncols(self))))
        return base["_g_write_coords"](self, coords, nparr)

    def w_sel(self, selection, nparr):
        note(self, "w", list(range(int(nparr.shape[0] if nparr.ndim else 1))), 0, ncols(self))
        return base["_g_write_selection"](self, selection, nparr)

    def w_append(self, nparr):
        n = int(self.shape[0])
        note(self, "w", *span(self, range(n, n + int(nparr.shape[0])), range(ncols(self))))
        return base["_append"](self, nparr)

    for n, f in (("_g_read_slice", r_slice), ("_read_array", r_array), ("_g_read_coords", r_coords), ("_g_read_selection", r_sel),
                 ("_g_write_slice", w_slice), ("_g_write_coords", w_coords), ("_g_write_selection", w_sel), ("_append", w_append)):
        setattr(A, n, f)


patch()


def write(path, a, kind):
    with tables.open_file(path, "w") as h5:
        if kind == "earray":
            n = h5.create_earray("/", "data", tables.Atom.from_dtype(a.dtype), (0, a.shape[1]))
            n.append(a)
        elif kind == "array":
            n = h5.create_array("/", "data", a)
        else:
            n = h5.create_carray("/", "data", tables.Atom.from_dtype(a.dtype), a.shape)
            n[:] = a
        n.attrs.mean = None
        n.attrs.std = None


def data(e, n):
    rs = np.random.RandomState(e["seed"])
    X = rs.randint(-3, 4, (n, e["d"])).astype(float)
    if e["cls"] in ("c", "wc"):
        T = np.zeros((n, e["c"]))
        T[np.arange(n), np.arange(n) % e["c"]] = 1
        T = T[rs.permutation(n)] if n > e["c"] else T
    elif e["cls"] == "ml":
        T = rs.randint(0, 2, (n, e["c"])).astype(float)
    else:
        T = rs.randint(-3, 4, (n, e["c"])).astype(float)
    return X, T, np.abs(T - (rs.rand(n, e["c"]) < .3) * .75)


def model(hp, e, d):
    m = hp.HPELM(e["d"], e["c"], classification=e["cls"], w=e["w"] or None,
                 batch=e["batch"] if e["how"] == "new" else e["other"], precision=e["prec"])
    if e["tp"]:
        m.tprint = 0
    if e["how"] == "attr":
        m.batch = e["batch"]
    rs = np.random.RandomState(1)
    m.add_neurons(e["L"], "lin" if e["L"] <= e["d"] else "tanh", rs.rand(e["d"], e["L"]), rs.rand(e["L"]))
    return m


def operation(hp, m, e, f):
    """returns the operation as a function"""
    op = e["fn"]
    kw = {}
    if e["rng"]:
        kw = dict(istart=e["istart"], icount=e["icount"])
    if op == "train":
        a = [e["cls"]] if e["cls"] else []
        k = dict(kw)
        if e["w"]:
            k["w"] = e["w"]
        if e["how"] == "kw":
            k["batch"] = e["batch"]
        return lambda: (m.train_async if e["async_"] else m.train)(f["X"], f["T"], *a, **k)
    if op == "add":
        return lambda: (m.add_data_async if e["async_"] else m.add_data)(f["X"], f["T"], **kw)
    if op == "addf":
        return lambda: (m.add_data_async if e["async_"] else m.add_data)(f["X"], f["T"], fHH=f["HH"], fHT=f["HT"], **kw)
    if op == "predict":
        return lambda: (m.predict_async if e["async_"] else m.predict)(f["X"], f["O"], **kw)
    if op == "predict0":
        return lambda: m.predict(f["X"], **kw)
    if op == "project":
        return lambda: m.project(f["X"], f["O"], **kw)
    if op == "project0":
        return lambda: m.project(f["X"], **kw)
    if op == "error":
        return lambda: m.error(f["T"], f["Y"], **kw)
    if op == "confusion":
        return lambda: m.confusion(f["T"], f["Y"])
    if op == "valcorr":
        return lambda: m.validation_corr(f["HH"], f["HT"], f["X"], f["T"], steps=3)
    if op == "norm":
        return lambda: hp.normalize_hdf5(f["X"], batch=e["batch"])
    if op == "norm2":
        return lambda: hp.normalize_hdf5(f["X"], mean=[1.0] * e["d"], std=[2.0] * e["d"], batch=e["batch"])
    raise RuntimeError(op)


def once(e, n, d, hp, trace):
    f = {k: os.path.join(d, k + str(n) + ".h5") for k in ("X", "T", "Y", "O", "HH", "HT")}
    X, T, Y = data(e, n)
    for k, a in (("X", X), ("T", T), ("Y", Y)):
        write(f[k], a.astype(e["dt"]), e["h5"])
    m = model(hp, e, d)
    if e["fn"] in ("predict", "predict0"):
        m.nnet.set_B(np.ones((e["L"], e["c"])))
    if e["fn"] == "error" and e["cls"] == "wc" and not e["w"] or e["fn"] == "valcorr":
        m.add_data(X[:min(n, 50)], T[:min(n, 50)], **({"fHH": f["HH"], "fHT": f["HT"]} if e["fn"] == "valcorr" else {}))
    fn = operation(hp, m, e, f)
    log = os.path.join(d, "log")
    if not trace:
        fn0 = dict(e, seed=2)
        tracemalloc.start()
        try:
            base = tracemalloc.get_traced_memory()[0]
            tracemalloc.reset_peak()
            fn()
            peak = tracemalloc.get_traced_memory()[1]
        finally:
            tracemalloc.stop()
        out = sum(os.path.getsize(f[k]) for k in "XTY" if os.path.exists(f[k]))
        return int(peak - base), int(X.nbytes)
    LOG[0] = log
    try:
        fn()
    finally:
        LOG[0] = None
    io = []
    inv = {os.path.abspath(v): k for k, v in f.items()}
    if os.path.exists(log):
        for line in open(log):
            p, kind, rows, c0, c1 = json.loads(line)
            if inv.get(p) in ("X", "T", "Y", "O"):
                io.append({"f": inv[p], "w": kind == "w", "rows": [r + 1 for r in rows], "c0": c0 + 1, "c1": c1})
        os.unlink(log)
    for h in list(getattr(m, "opened_hdf5", [])):
        h.close()
    return io


def run_batch(sc, scratch, hp):
    import contextlib, io as iomod
    for e in sc["events"]:
        e["exc"], e["ret"], e["mut"], e["obs"] = "", {}, False, {}
        d = os.path.join(scratch, "b%d" % sc["events"].index(e))
        os.makedirs(d, exist_ok=True)
        signal.setitimer(signal.ITIMER_REAL, EVENT_TIMEOUT)
        try:
            if e["op"] == "io":
                e["ret"] = {"io": once(e, e["N"], d, hp, True)}
            else:
                once(e, e["N"], d, hp, False)      # first call fills caches
                a = once(e, e["N"], d, hp, False)
                b = once(e, e["N"] * 3, d, hp, False)
                e["ret"] = {"mem": [a[0] // 16, b[0] // 16], "bytes": [a[1] // 16, b[1] // 16]}
        except Hang:
            e["exc"] = "HANG"
        except Exception as ex:
            e["exc"], e["excmsg"] = type(ex).__name__, str(ex)[:200]
        finally:
            LOG[0] = None
            signal.setitimer(signal.ITIMER_REAL, 0)


RUNNERS = {"batch": run_batch}
