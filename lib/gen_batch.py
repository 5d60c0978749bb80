"""Scenarios for C24: configurations of HPELM operations on HDF5 files."""
import random

FNS = ["train", "add", "addf", "predict", "predict0", "project", "project0", "error", "confusion", "valcorr", "norm", "norm2"]


def case(r, fn, N, batch, istart, icount, rng, async_=False, **kw):
    cls = r.choice(["", "", "c", "wc", "wc", "ml"])
    if fn == "confusion":
        cls = r.choice(["c", "wc", "ml"])
    if fn in ("norm", "norm2"):
        cls = ""
    c = r.choice([1, 2, 3]) if not cls else r.choice([2, 3])
    w = [r.choice([1, 2, 4]) for _ in range(c)] if cls == "wc" and (r.random() < .4 or fn == "valcorr") else []
    e = {"op": "io", "fn": fn, "N": N, "batch": batch, "istart": istart, "icount": icount, "rng": rng, "async_": async_, "cls": cls, "w": w,
         "c": c, "d": r.choice([1, 2, 3, 9]), "L": r.choice([1, 2, 4, 17]), "prec": r.choice(["double", "double", "single"]),
         "dt": r.choice(["f8", "f8", "f4"] + (["i8"] if fn not in ("norm", "norm2") else [])), "h5": r.choice(["carray", "earray", "array"]),
         "seed": r.randrange(10 ** 6), "tp": r.random() < .2, "how": r.choice(["new", "attr"] + ["kw", "kw"] * (fn == "train")), "other": r.choice([1, 2, N, N + 9, 1000])}
    e.update(kw)
    return e


def ranged(fn):
    return fn not in ("confusion", "valcorr", "norm", "norm2")


def grid(seed, ns):
    """every N, batch, istart, icount for every operation"""
    r = random.Random("%s/grid" % seed)
    out = []
    for fn in FNS:
        for N in ns:
            for batch in range(1, N + 2):
                out.append(case(r, fn, N, batch, 0, N, False))
                if ranged(fn):
                    for istart in range(N):
                        for icount in range(1, N - istart + 2):
                            out.append(case(r, fn, N, batch, istart, icount, True))
    return out


def some(seed, n, async_):
    r = random.Random("%s/some%s" % (seed, async_))
    out = []
    for _ in range(n):
        fn = r.choice(["train", "add", "addf", "predict"] if async_ else FNS)
        N = r.randint(1, 40)
        istart = r.randrange(N)
        out.append(case(r, fn, N, r.choice([1, 2, 3, 5, 7, 10, 16, N, N + 5]), istart, r.randint(1, N + 3 - istart), ranged(fn) and r.random() < .7, async_))
    return out


def mem(seed, fns, async_):
    r = random.Random("%s/mem%s" % (seed, async_))
    out = []
    for fn in fns:
        for cls in {"confusion": ["c", "ml"], "norm": [""], "norm2": [""], "valcorr": ["", "c"]}.get(fn, ["", "c", "wc"]):
            TY = fn in ("error", "confusion")
            w = [1] * (20 if TY else 2) if cls == "wc" and TY else []
            out.append(case(r, fn, 600, 20, 0, 0, False, async_, op="mem", cls=cls, w=w, d=20 if TY else 60, c=20 if TY else 2, L=3, dt="f8", prec="double"))
    return out


def scenarios(events, per=8):
    return [{"id": "b%d" % i, "kind": "batch", "events": events[i:i + per]} for i in range(0, len(events), per)]
