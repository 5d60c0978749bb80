"""Runs the functions that work on matrices and files: mrsr, mrsr2, make_hdf5, normalize_hdf5, rbf_param."""
import bz2, gzip, hashlib, json, os
import numpy as np
from driver import World, Arg, DT, layout, v3, v3m, v3v, bits, write_h5, signal, EVENT_TIMEOUT, Hang


def values(e):
    a = np.array(e["X"], dtype=np.float64).reshape(e["rows"], e["cols"]) / e["den"]
    return a * 2.0 ** e["mul"] + e["off"]


def text(e, a):
    lines = ["header %d%sx" % (i, e["delim"]) for i in range(e["skip"])]
    for r in a:
        cells = []
        for x in r:
            cells.append(("%d" if x == int(x) else "%.17g") % x if e["style"] == "short" else "%.18e" % x)
        lines.append(e["delim"].join(cells))
    lines = lines[:e["skip"]] + lines[e["skip"]:]
    s = e["eol"].join(lines) + {"": "", "nl": e["eol"], "blank": e["eol"] * 2}[e["tail"]]
    return s


def file_obs(w, name, off, den, mul):
    """contents of a file"""
    import tables
    p = w.path(name + ".h5")
    if not os.path.exists(p):
        return {"exists": False}, ""
    try:
        with tables.open_file(p, "r") as h5:
            nodes = list(h5.walk_nodes("/", classname="Leaf"))
            if len(nodes) != 1:
                return {"exists": True, "ok": False}, "n%d" % len(nodes)
            a = nodes[0][:]
            kind = {"f8": 64, "f4": 32}.get(np.dtype(nodes[0].dtype).str[1:], 1)
            dts = np.dtype(nodes[0].dtype).str[1:]
    except Exception as ex:
        return {"exists": True, "ok": False, "err": repr(ex)[:100]}, repr(ex)
    o = {"exists": True, "ok": a.ndim == 2, "rows": int(a.shape[0]), "cols": int(a.shape[1]) if a.ndim == 2 else 0,
         "dt": dts, "bits": kind}
    f = a.astype(np.float64)
    if a.ndim == 2:
        q = (f - off) * den / 2.0 ** mul
        fin = np.isfinite(q) & (np.abs(q) < 1e9)
        r = np.where(fin, np.round(np.where(fin, q, 0)), 999999999)
        o["q"] = r.astype(int).tolist()
        o["exact"] = bool((r == q).all())
        o["z"] = v3m(f)
        o["z2"] = v3m(f * f)
        o["sg"] = np.sign(np.where(np.isfinite(f), f, 0)).astype(int).tolist()
    return o, hashlib.sha1(repr(a.shape).encode() + dts.encode() + a.tobytes()).hexdigest()


def run_event(w, e, hp, hm):
    op = e["op"]
    ret, mut, exc = {}, False, ""
    try:
        if op == "rank":
            X = layout((np.array(e["X"], dtype=np.float64) * e["sx"]).astype(DT[e["dt"]]), e["lay"])
            T = layout((np.array(e["T"], dtype=np.float64) * e["st"]).astype(DT[e["tdt"]]), e["lay2"])
            kX, kT = X.copy(), T.copy()
            if e["ro"]:
                X.flags.writeable = False
                T.flags.writeable = False
            res = []
            for k in e["ks"]:
                if e["algo"] == "mrsr":
                    r = hm.mrsr(X, T, k)
                elif e["algo"] == "mrsr2":
                    r = hm.mrsr2(X, T, k)
                else:
                    r = hm.mrsr2(X, T, k, norm=int(e["algo"][-1]))
                res.append([int(i) + 1 for i in r])
                mut = mut or not (np.array_equal(X, kX) and np.array_equal(T, kT))
            ret = {"r": res}
        elif op == "mk":
            p = w.path(e["name"] + ".h5")
            src = e["src"]
            keep = None
            if src == "raw":                    # a file made by other means
                write_h5(p, values(e).astype(DT[e["dt"]]), e["h5"])
                return exc, ret, False
            if src == "tuple":
                data = (e["rows"], e["cols"])
            else:
                a = values(e)
                if src == "arr":
                    data = layout(a.astype(DT[e["sdt"]]), e["lay"])
                    if e["nd"] == 1:
                        data = layout(data.ravel(), e["lay"])
                    elif e["nd"] == 3:
                        data = data[:, :, None]
                    keep = data.copy()
                elif src == "npy":
                    data = w.fresh(".npy")
                    b = a.astype(DT[e["sdt"]])
                    np.save(data, np.asfortranarray(b) if e["lay"] == "F" else b.ravel() if e["nd"] == 1 else b)
                elif src in ("missing", "badname"):
                    data = w.path("nothing" + (".csv" if src == "missing" else ".dat"))
                    if src == "badname":
                        np.savetxt(data, a)
                else:
                    data = w.fresh("." + src)
                    s = text(e, a)
                    o = {"gz": gzip.open, "bz2": bz2.open}.get(src[-3:].strip("."), open)
                    with o(data, "wt", newline="") as f:
                        f.write(s)
            before = open(data, "rb").read() if isinstance(data, str) and os.path.exists(data) else None
            kw = {}
            if e["pass_dt"]:
                kw["dtype"] = DT[e["dt"]]
            if e["delim"] != " ":
                kw["delimiter"] = e["delim"]
            if e["skip"]:
                kw["skiprows"] = e["skip"]
            if e["comp"]:
                kw["comp_level"] = e["comp"]
            if e.get("pre"):                    # replaces a file made by other means
                write_h5(p, np.full((3, 2), 7.), e["h5"])
            try:
                hp.make_hdf5(data, p, **kw)
            finally:
                if before is not None:
                    mut = open(data, "rb").read() != before
                if keep is not None:
                    mut = data.dtype != keep.dtype or data.tobytes() != keep.tobytes()
        elif op == "nrm":
            kw = {}
            vecs = []
            if e["given"]:
                m = np.array(e["mean"], dtype=np.float64) * 2.0 ** e["mul"] + e["off"]
                s = np.array(e["std"], dtype=np.float64) / e["sden"] * 2.0 ** e["mul"]
                if e["vform"] == "list":
                    m, s = m.tolist(), s.tolist()
                elif e["vform"] == "f4":
                    m, s = m.astype(np.float32), s.astype(np.float32)
                vecs = [m, s]
                kw = dict(mean=m, std=s)
                if e["given"] == 1:         # one of the two only: as none
                    kw.pop(e["drop"])
            if e["batch"]:
                kw["batch"] = e["batch"]
            keep = [np.array(v) for v in vecs]
            m, s = hp.normalize_hdf5(w.path(e["name"] + ".h5"), **kw)
            mut = any(not np.array_equal(np.asarray(a), b) for a, b in zip(vecs, keep))
            m, s = np.asarray(m, dtype=np.float64), np.asarray(s, dtype=np.float64)
            m, s = (m - e["off"]) / 2.0 ** e["mul"], s / 2.0 ** e["mul"]
            ret = {"mean": v3v(m), "std": v3v(s), "std2": v3v(s * s)}
            for v in vecs:
                if isinstance(v, np.ndarray):
                    v[...] = 55
        elif op == "rbf":
            a = np.array(e["X"], dtype=np.float64).reshape(e["rows"], e["cols"]) / e["den"]
            arg = Arg(w, (a * 2).tolist(), 2.0, {"dt": e["dt"], "lay": e["lay"], "src": e["src"], "h5": e["h5"]})
            np.random.seed(e["seed"])
            W, B = hm.rbf_param(arg.value, e["k"], *([e["kind"]] if e["kind"] else []))
            mut = arg.mutated()
            ret = {"W": v3m(np.asarray(W).T) if np.ndim(W) == 2 else [], "d": int(np.shape(W)[0]), "B": v3v(B),
                   "pos": bool(np.all(np.asarray(B) > 0)), "nb": int(np.ndim(B)), "H": []}
            if e["func"]:
                m = hp.ELM(e["cols"], 1)
                m.add_neurons(e["k"], e["func"], W, B)
                H = m.project(a)
                ret["H"] = v3m(H)
                ret["h01"] = bool(((H >= 0) & (H <= 1)).all())
        else:
            raise RuntimeError("unknown op " + op)
    except Hang:
        exc = "HANG"
    except Exception as ex:
        exc = type(ex).__name__
        e["excmsg"] = str(ex)[:200]
    return exc, ret, bool(mut)


def run_tools(sc, scratch, hp):
    import hpelm.modules as hm
    w = World(scratch)
    last, meta = {}, {}
    for e in sc["events"]:
        if e["op"] == "mk":
            meta[e["name"]] = (e["off"], e["den"], e["mul"])
        signal.setitimer(signal.ITIMER_REAL, EVENT_TIMEOUT)
        try:
            e["exc"], e["ret"], e["mut"] = run_event(w, e, hp, hm)
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
        e["obs"] = {}
        for n, (off, den, mul) in sorted(meta.items()):
            o, dig = file_obs(w, n, off, den, mul)
            o["same"] = last.get(n) == dig
            last[n] = dig
            if o["same"] and not (e["op"] in ("mk", "nrm") and e["name"] == n):
                o = {"same": True}
            e["obs"][n] = o
        if e["exc"] == "HANG":
            return


RUNNERS = {"tools": run_tools}
