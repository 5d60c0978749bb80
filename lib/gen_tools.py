"""Calls of the functions on matrices and files: mrsr, mrsr2, make_hdf5, normalize_hdf5, rbf_param."""
import random
from gen_mss import sylvester


# ------------------------------------------------------------------ ranking
def rank(r):
    kind = r.choice(["any", "any", "any", "small", "small", "small", "ortho", "ortho", "dup", "one", "zero", "many", "wide"])
    algo = r.choice(["mrsr", "mrsr", "mrsr2", "mrsr2", "mrsr2_1", "mrsr2_2"])
    c = r.choice([1, 1, 2, 3]) if kind not in ("many",) else r.choice([5, 9, 10, 12])
    if algo == "mrsr" and kind == "many":
        c = 5
    path = False
    val = lambda: r.choice([-3, -2, -1, 0, 1, 2, 3])
    if kind == "ortho":
        M = r.choice([4, 8, 8, 16])
        p = r.randint(1, M)
        H = sylvester(M)
        cols = r.sample(range(M), p)
        if r.random() < .5:
            mag = r.sample(range(1, p + 1), p)
        else:
            mag = [r.randint(0, 3) for _ in range(p)]
        sc = [r.choice([1, 1, 2]) for _ in range(p)] if r.random() < .3 else [1] * p
        X = [[s * h[j] * f for j, f in zip(cols, sc)] for h in r.sample(H, M) for s in [r.choice([1, -1])]]
        co = [[m * r.choice([1, -1]) if q == 0 else r.choice([0, 0, 1, -1]) for m in mag] for q in range(c)]
        T = [[sum(a * x for a, x in zip(co[q], row)) + r.choice([0, 0, 1, -1]) for q in range(c)] for row in X]
    else:
        p = {"one": 1, "wide": r.randint(13, 30), "small": r.choice([2, 3, 4, 5, 5, 6])}.get(kind, r.randint(2, 12))
        N = r.randint(p, p + 4) if kind == "wide" and r.random() < .5 else r.choice([1, 2, 5, 60]) if kind == "wide" else r.randint(p, p + 4) if kind != "small" else r.randint(p + 1, p + 3)
        if kind == "small":
            v = lambda: r.choice([-2, -1, -1, 0, 1, 1, 2])
            X = [[v() for _ in range(p)] for _ in range(N)]
            T = [[v() for _ in range(c if c < 3 else 2)] for _ in range(N)]
            path = True
        else:
            X = [[val() for _ in range(p)] for _ in range(N)]
            T = [[val() for _ in range(c)] for _ in range(N)]
            if r.random() < .5:
                T = [[t + 2 * sum(row[:2]) for t in tr] for tr, row in zip(T, X)]
        if kind == "dup":
            for _ in range(r.randint(1, 3)):
                a, b = r.randrange(p), r.randrange(p)
                s = r.choice([1, 1, -1, 2])
                for row in X:
                    row[a] = s * row[b]
        elif kind == "zero":
            a = r.randrange(p)
            for row in X:
                row[a] = 0
            if r.random() < .3:
                T = [[0] * len(T[0]) for _ in T]
    ks = sorted({1, p, p + r.choice([0, 1, 5]), r.randint(1, p), r.randint(1, p)})
    r.shuffle(ks)
    dt = tdt = r.choice(["f8", "f8", "f8", "i8", "f4", "F8", "i1", "b1"])
    if dt == "b1":                                             # features present or not
        if kind != "ortho":
            X = [[int(x > 0) for x in row] for row in X]
        if kind == "ortho" or r.random() < .5:
            dt = tdt = "i1"
        else:
            tdt = "i8"
            if r.random() < .5:
                T, tdt = [[int(t > 0) for t in row] for row in T], "b1"
    if tdt == "i1" and max(abs(t) for row in T for t in row) > 127:
        tdt = "i8"
    isint = dt in ("i8", "i1", "b1")
    return {"op": "rank", "algo": algo, "norm": 1 if algo in ("mrsr", "mrsr2_1") else 2, "X": X, "T": T, "ks": ks, "path": path and dt != "f4",
            "sx": 1 if isint else r.choice([1, 1, .5, 2.0 ** -20, 1024]), "st": 1 if isint else r.choice([1, 1, .25, 2.0 ** 20]),
            "dt": dt, "tdt": tdt, "lay": r.choice("CFSN"), "lay2": r.choice("CFSN"), "ro": r.random() < .3}


def ranks(seed, sid, n=4):
    r = random.Random("%s/%s" % (seed, sid))
    return {"id": sid, "kind": "tools", "events": [rank(r) for _ in range(n)]}


# -------------------------------------------------------------------- files
DTS = {"f8": 2 ** 20, "f4": 2 ** 13, "i4": 2 ** 20, "i8": 2 ** 20}


def mk(r, name, small=False, long=False, **kw):
    """a make_hdf5 call; small: data with exactly known statistics"""
    e = {"op": "mk", "name": name, "delim": " ", "skip": 0, "comp": r.choice([0, 0, 1, 5, 9]), "off": 0, "mul": 0, "nd": 2, "lay": r.choice("CFSN"),
         "sdt": "f8", "style": r.choice(["short", "full"]), "eol": r.choice(["\n", "\n", "\r\n"]), "tail": r.choice(["nl", "nl", "", "blank"]),
         "h5": r.choice(["carray", "earray", "array"]), "X": []}
    e["dt"] = r.choice(["f8", "f8", "f4"]) if small else r.choice(["f8", "f8", "f8", "f4", "i4", "i8"])
    e["src"] = r.choice(["arr", "arr", "npy", "txt", "csv", "txt.gz", "csv.bz2", "raw", "raw", "tuple"] if small else
                        ["arr", "arr", "npy", "npy", "txt", "csv", "txt", "csv", "txt.gz", "csv.bz2", "tuple"])
    if not small and r.random() < .06:
        e["src"] = r.choice(["missing", "badname"])
    e.update(kw)
    e["rows"] = r.choice([1, 2, 3, 5, 8, 12, 40]) if small else r.choice([1, 1, 2, 3, 7, 20, 60])
    e["cols"] = r.choice([1, 1, 2, 3, 5])
    isint = e["dt"][0] == "i"
    if small:
        e["den"] = r.choice([1, 1, 2, 4])
        if e["dt"] == "f8" and r.random() < .35:
            e["off"] = r.choice([10 ** 3, 10 ** 6, 10 ** 8, -10 ** 7])
        elif r.random() < .2:
            e["mul"] = r.choice([-20, 20, -40, 40])
        col = []
        for _ in range(e["cols"]):
            k = r.choice(["any", "any", "const", "two", "big"])
            if e["rows"] == 40:
                e["den"] = 1
                k = "any" if k == "big" else k
            col.append([r.randint(-6, 6)] * e["rows"] if k == "const" else
                       [r.choice([-1, 1]) for _ in range(e["rows"])] if k == "two" else
                       [r.randint(-40, 40) for _ in range(e["rows"])] if k == "big" else [r.randint(-5, 5) for _ in range(e["rows"])])
        e["X"] = [[c[i] for c in col] for i in range(e["rows"])]
    else:
        e["den"] = 1 if isint else r.choice([1, 2, 1024, 2 ** 13, 2 ** 20])
        if not isint:
            e["mul"] = r.choice([0, 0, 0, -20, -40, 20, 40])
        if e["dt"] in ("f8", "i8") and r.random() < .35:      # more digits than single precision has
            e["mul"], e["off"] = 0, r.choice([10 ** 3 + 1, 10 ** 6 + 1, 10 ** 9, -10 ** 9 - 1] + ([10 ** 12 + 7, -10 ** 15] if isint else []))
        m = r.choice([3, 100, DTS[e["dt"]]])
        if long:
            e["rows"], e["cols"] = r.choice([700, 1100, 2100]), r.choice([1, 2])
        e["X"] = [[r.randint(-m, m) for _ in range(e["cols"])] for _ in range(e["rows"])]
    if e["src"] == "tuple":
        e["off"] = e["mul"] = 0
    if e["src"] in ("arr", "npy"):
        if r.random() < .25:
            e["nd"] = 1
        elif e["src"] == "arr" and not small and r.random() < .08:
            e["nd"] = 3
        if r.random() < .3 and e["den"] == 1 and e["off"] == e["mul"] == 0:
            e["sdt"] = r.choice(["i8", "i4", "f4"]) if all(abs(x) < 2 ** 13 for row in e["X"] for x in row) else "i8"
        if e["nd"] == 1 and e["src"] == "npy":
            e["lay"] = "C"
    elif e["src"].split(".")[-1] in ("txt", "csv", "gz", "bz2"):
        e["delim"] = r.choice([" ", ",", ";", "\t"])
        e["skip"] = r.choice([0, 0, 1, 3])
        if isint:
            e["style"] = "short"
    if not small and r.random() < .04:
        e["comp"] = 10
    e["pass_dt"] = e["dt"] != "f8" or r.random() < .3
    return e


def nrm(r, f, given=None, bad=False):
    """a normalize_hdf5 call on a file as described by its mk event"""
    c = f["cols"] if f["nd"] == 2 else 1
    n = f["rows"] if f["nd"] == 2 else f["rows"] * f["cols"]
    e = {"op": "nrm", "name": f["name"], "given": given if given is not None else r.choice([0, 0, 2, 2, 1]), "off": f["off"] if f["fresh"] else 0, "mul": f["mul"] if f["fresh"] else 0,
         "batch": r.choice([0, 0, 1, 2, 3, n, n + 1, max(1, n - 1), 1000]), "vform": r.choice(["f8", "f8", "list", "f4"]), "sden": r.choice([1, 1, 2, 4]),
         "drop": r.choice(["mean", "std"])}
    if e["off"] and e["vform"] == "f4":
        e["vform"] = "f8"
    e["mean"] = [r.randint(-5, 5) for _ in range(c)]
    e["std"] = [r.choice([1 if e["mul"] else 0, 1, 2, 3, 5, 8]) for _ in range(c)]
    if bad:
        e["mean"] = e["mean"] + [0]
    elif e["given"] == 2 and r.random() < .1 and given is None:
        if r.random() < .5:
            e["mean"] = e["mean"] + [1] if r.random() < .5 else e["mean"][:-1]
        else:
            e["std"] = e["std"] + [1] if r.random() < .5 else e["std"][:-1]
    elif e["given"] == 2:
        f["fresh"] = False
        f["off"], f["mul"] = e["off"], e["mul"]
    else:
        e["off"], e["mul"] = f["off"], f["mul"]      # of the parameters that the file remembers
        f["fresh"] = False
    return e


def files(seed, sid, n):
    r = random.Random("%s/%s" % (seed, sid))
    ev = [mk(r, r.choice("ab")) for _ in range(n)]
    for e in ev:
        e["pre"] = e["src"] not in ("missing", "badname", "raw") and e["comp"] < 10 and e["nd"] < 3 and r.random() < .2
    return {"id": sid, "kind": "tools", "events": ev}


def long_files(seed, sid):
    """more rows than any piece"""
    r = random.Random("%s/%s" % (seed, sid))
    return {"id": sid, "kind": "tools", "events": [mk(r, "a", long=True, src=x) for x in (["txt", "csv", "txt.gz"], ["arr", "npy", "csv"])[r.randrange(2)]]}


def normals(seed, sid, n, word=None):
    """a history of two files; word: the kinds of calls (from the model H5MC)"""
    r = random.Random("%s/%s" % (seed, sid))
    fs, ev = {}, []
    if word is None:
        word = []
        have = set()
        for _ in range(n):
            nm = r.choice("ab")
            if nm not in have or r.random() < .1:
                word.append(["mk", nm])
                have.add(nm)
            else:
                word.append([r.choice(["auto", "auto", "given", "given", "one", "bad"]), nm])
    for op, nm in word:
        if op == "mk":
            e = mk(r, nm, small=True)
            ev.append(e)
            fs[nm] = dict(e, fresh=True)
        else:
            ev.append(nrm(r, fs[nm], {"auto": 0, "given": 2, "one": 1, "bad": 2}[op], op == "bad"))
    return {"id": sid, "kind": "tools", "events": ev}


# ---------------------------------------------------------------------- rbf
def rbf(r):
    kind, func = r.choice([("", "rbf_l2"), ("rbf_l2", "rbf_l2"), ("sqeuclidean", "rbf_l2"), ("l2", "rbf_l2"), ("rbf_l1", "rbf_l1"), ("l1", "rbf_l1"),
                           ("inf", "rbf_linf"), ("rbf_linf", "rbf_linf"), ("linf", "rbf_linf")])
    eq = r.random() < .5
    den = r.choice([1, 1, 2])
    if eq:                 # all rows have the same distance
        d = r.randint(2, 6)
        N = r.randint(2, d)
        s = r.choice([-3, -1, 1, 2, 5])
        X = [[s if i == j else 0 for j in range(d)] for i in range(N)]
        o = [r.randint(-2, 2) for _ in range(d)]
        X = [[x + y for x, y in zip(row, o)] for row in X]
        r.shuffle(X)
    else:
        d, N = r.choice([1, 2, 3, 4, 12]), r.choice([1, 2, 3, 5, 9, 20, 50])
        m = r.choice([1, 4, 9])
        X = [[r.randint(-m, m) for _ in range(d)] for _ in range(N)]
        if r.random() < .05:
            X = [X[0]] * N
    dt = r.choice(["f8", "f8", "f4"] + (["i8"] if den == 1 else []))
    return {"op": "rbf", "X": X, "rows": N, "cols": d, "den": den, "k": r.choice([1, 2, 3, 7, 20, 60]), "kind": kind, "func": func if r.random() < .7 else "",
            "dt": dt, "lay": r.choice("CFSN"), "src": r.choice(["arr", "arr", "h5"]), "h5": r.choice(["carray", "earray"]), "seed": r.randrange(10 ** 6)}


def rbfs(seed, sid, n=4):
    r = random.Random("%s/%s" % (seed, sid))
    return {"id": sid, "kind": "tools", "events": [rbf(r) for _ in range(n)]}
