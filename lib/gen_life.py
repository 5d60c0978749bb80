"""Random histories of model objects (kind 'life').  The generator only tracks what it needs to
make most calls meaningful; what must happen is decided by the specification alone."""
import random

SMOOTH = ("tanh", "sigm", "utanh", "rbf_l1", "rbf_l2", "rbf_linf")
UF = ("negative", "absolute", "sign", "floor", "utanh", "utanh")


class G(object):
    def __init__(self, rng, **prof):
        self.r = rng
        self.p = prof
        self.models = {}     # slot -> dict(d,c,L,B,acc,cls,wc,hp,batch,prec,solver,fs,opq)
        self.saved = {}
        self.corr = {}
        self.ev = []
        self.nout = 0
        self.open_out = set()
        self.last_form, self.last_rows = ("", ""), 0

    # ------------------------------------------------------------ helpers
    def pick(self, *a):
        return self.r.choice(a)

    def chance(self, p):
        return self.r.random() < p

    def form(self, n_cols, ints, hp, h5=None):
        """a form dictionary for values that are integers (ints) or halves"""
        f = {"dt": "f8", "lay": "C", "src": "arr", "ro": False}
        if self.p.get("forms", True):
            dts = ["f8", "f8", "f8", "f4", "f4", "F8"]
            if ints == "bin":
                dts += ["b1", "u1", "i8", "b1", "i1", "I4"]
            elif ints:
                dts += ["i8", "i4", "i1", "i2", "I4", "i8"]
            f["dt"] = self.r.choice(dts)
            f["lay"] = self.r.choice("CCFSN")
            f["ro"] = self.chance(0.3)
            if self.chance(.4) and self.last_form[0] in dts:        # the same kind of array as before, it may be the same object
                f["dt"], f["lay"] = self.last_form
            self.last_form = f["dt"], f["lay"]
        if h5 or (hp and h5 is None and self.chance(self.p.get("h5", 0.3))):
            f["src"] = "h5"
            f["h5"] = self.pick("carray", "earray", "array")
        return f

    def desc(self, vals, cols, form, allow1d=True):
        nd = 2
        if cols == 1 and form["src"] == "arr" and allow1d and self.chance(0.4):
            nd = 1
        return {"kind": "num", "nd": nd, "rows": len(vals), "cols": cols}

    def xdata(self, N, d, ints=None):
        if ints is None:
            ints = self.chance(0.4)
        return [[(self.r.randint(-1, 1) * 2 if ints else self.r.randint(-3, 3)) for _ in range(d)] for _ in range(N)], ints

    def tdata(self, N, c, cls):
        """doubled targets, kind of values"""
        ks = [k for k in (1, 1, 2, 3) if N % (k + c - 1) == 0]
        if cls == "wc" and N > 9 and ks:       # simple ratios of class sizes
            k = self.r.choice(ks)
            cl = [j for j in range(c) for _ in range(N // (k + c - 1) * (k if j == 0 else 1))]
            self.r.shuffle(cl)
            return [[2 if j == k else 0 for j in range(c)] for k in cl], "bin"
        if cls in ("c", "wc"):
            cl = [i % c for i in range(N)]
            self.r.shuffle(cl)
            if N >= c and self.chance(0.5):       # unbalanced, all present
                cl = list(range(c)) + [self.r.randrange(c) if self.chance(.5) else 0 for _ in range(N - c)]
                self.r.shuffle(cl)
            return [[2 if j == k else 0 for j in range(c)] for k in cl], "bin"
        if cls == "ml":
            return [[2 * self.r.randint(0, 1) for _ in range(c)] for _ in range(N)], "bin"
        if self.chance(0.3):
            return [[2 * self.r.randint(-2, 2) for _ in range(c)] for _ in range(N)], True
        return [[self.r.randint(-4, 4) for _ in range(c)] for _ in range(N)], False

    def rows(self, lo, hi):
        """mostly few rows, sometimes more of them than any small constant"""
        if self.chance(.3) and lo <= self.last_rows <= hi:
            return self.last_rows
        self.last_rows = self.r.randint(11, 60) if self.chance(self.p.get("medium", .1)) else self.r.randint(lo, hi)
        return self.last_rows

    def rows_auto(self, lo, hi, c):
        """the same for automatic class weights: few rows, or classes with simple ratios of sizes"""
        if not self.chance(self.p.get("medium", .1)):
            return self.r.randint(lo, hi)
        q = self.r.choice([1, 1, 2, 3]) + c - 1
        return q * self.r.randint(10 // q + 1, max(60 // q, 10 // q + 2))

    def batch(self):
        b = self.p.get("batch")
        if b:
            return self.r.choice(b)
        return self.r.choice([1, 2, 3, 4, 5, 7, 1000])

    def slot(self, **cond):
        c = [s for s, m in self.models.items() if all(bool(m.get(k)) == v for k, v in cond.items())]
        return self.r.choice(sorted(c)) if c else None

    def add(self, op, m, **kw):
        e = {"op": op, "m": m, "hp": self.models[m]["hp"] if m in self.models else kw.get("hp", False), "corr": ""}
        if op in ("error", "confusion"):
            e["yone"] = 4
        e.update(kw)
        self.ev.append(e)
        return e

    # --------------------------------------------------------------- events
    def new(self, slot=None, d=None, c=None, hp=None, cls=None, norm=None, solver=None, prec=None, w=None):
        r = self.r
        slot = slot or r.choice(self.p.get("slots", ["a", "b"]))
        if d is None:
            d = r.choice(self.p.get("d", [1, 2, 2, 3]))
        if c is None:
            c = r.choice(self.p.get("c", [1, 2, 2, 3]))
        hp = self.chance(self.p.get("hp", 0.5)) if hp is None else hp
        if cls is None:
            cls = r.choice(self.p.get("cls", ["", "", "c", "wc", "ml"]))
        if c == 1:
            cls = ""
        if solver is None:
            solver = r.choice(self.p.get("solver", ["", "", "basic"]))
        if prec is None:
            prec = r.choice(self.p.get("prec", [64, 64, 64, 32]))
        pa = r.choice(["single", "32", "float32", "np32"] if prec == 32 else ["", "double", "64", "np64", "float64"] + (["quadruple"] if self.chance(.2) else []))
        if norm is None:
            norm = r.choice(self.p.get("norm", [1, 1, 2, 3, -1]))
            if norm > 0 and self.chance(.3):
                norm = max(.25, norm - r.choice([.25, .5, .75]))
        W = []
        if cls == "wc" and (w is not None or self.chance(0.4)):
            W = w or [[r.randint(1, 3) for _ in range(c)], r.choice([1, 2])]
        b = self.batch()
        ca = cls
        if cls == "ml" and self.chance(.3):
            ca = "mc"
        if self.chance(.3):
            ca = ca.upper()
        self.models.pop(slot, None)
        self.add("new", slot, hp=hp, d=d, c=c, cls=cls, cls_arg=ca, w=W, solver=solver, prec=prec, prec_arg=pa,
                 norm=int(4 * norm) if norm >= 0 else -1, batch=b, wform=self.pick("arr", "list"),
                 tp=self.chance(.2))
        self.models[slot] = dict(d=d, c=c, L=0, B=False, acc=False, cls=cls, wc=bool(W), hp=hp, batch=b, prec=prec,
                                 solver=solver, fs=[], opq=False, norm=norm)
        return slot

    def cols(self, f, n, d):
        r = self.r
        W, b = [], []
        for _ in range(n):
            if d > 4:        # few inputs per neuron: small numbers
                k = r.sample(range(d), r.choice([1, 1, 2]))
                W.append([(64 if f in ("tanh", "sigm", "utanh") else 1) * r.choice([-1, 1]) if i in k else 0 for i in range(d)])
                b.append(r.choice([2, 4]) if f.startswith("rbf") else (1024 * r.choice([-64, 0, 32]) if f in ("tanh", "sigm", "utanh") else 512 * r.randint(-1, 1)))
            elif f in ("tanh", "sigm", "utanh"):
                W.append([r.choice([-64, 0, 64, 64]) for _ in range(d)])
                b.append(1024 * r.choice([-64, 0, 32, 64]))
            elif f.startswith("rbf"):
                W.append([r.randint(-1, 1) for _ in range(d)])
                b.append(r.choice([2, 4]))
            else:
                W.append([r.randint(-1, 1) for _ in range(d)])
                b.append(512 * r.randint(-2, 2))
        return W, b

    def smooth_cols(self, f, n, d):
        """neurons with values strictly between the saturation levels (only for project)"""
        r = self.r
        W, b = [], []
        for _ in range(n):
            W.append([r.randint(-2, 2) for _ in range(d)])
            b.append(r.choice([1024, 2048, 4096]) if f.startswith("rbf") else 512 * r.randint(-4, 4))
        return W, b

    def addn(self, slot, f=None, n=None, cols=None):
        m = self.models[slot]
        f = f or self.r.choice(self.p.get("funcs", ["lin", "lin", "tanh", "sigm", "rbf_l1", "rbf_l2", "rbf_linf"] + (list(UF) if self.chance(.3) else [])))
        n = n or self.r.randint(*self.p.get("n", (1, 3)))
        if m["norm"] == 0 and f not in ("lin", "tanh") + UF:
            f = "tanh"      # values close to zero make a matrix without norm numerically singular
        if cols is None:
            cols = (self.smooth_cols if self.p.get("smooth") and f in SMOOTH and self.chance(.8) else self.cols)(f, n, m["d"])
        W, b = cols
        if self.p.get("dup") and self.chance(self.p["dup"]):      # equal neurons
            for j in range(1, n):
                if self.chance(.6):
                    W[j], b[j] = list(W[j - 1]), b[j - 1]
        self.add("addn", slot, f=f, n=n, given=True, W=W, b=b, malformed=False,
                 form={"dt": self.pick("f8", "f8", "i8"), "lay": self.pick("C", "F", "S")})
        m["L"] += n
        m["B"] = m["acc"] = False
        if f not in m["fs"]:
            m["fs"].append(f)

    def addn_default(self, slot, f, n):
        m = self.models[slot]
        self.add("addn", slot, f=f, n=n, given=False, W=[], b=[], malformed=False)
        m["L"] += min(n, m["d"]) if f == "lin" else n
        m["B"] = m["acc"] = False
        if f != "lin":
            m["opq"] = True

    def rng_range(self, N, hp):
        if not hp or self.chance(1 - self.p.get("range", 0.4)):
            return 0, -1
        s = self.r.randrange(0, N)
        return s, self.r.choice([-1, self.r.randint(1, N - s), self.r.randint(1, N + 2)])

    def pair(self, m, N, cls, hp, h5=None):
        X, xi = self.xdata(N, m["d"])
        T, ti = self.tdata(N, m["c"], cls)
        xf, tf = self.form(m["d"], xi, hp, h5), self.form(m["c"], ti, hp, h5)
        return X, T, xf, tf, self.desc(X, m["d"], xf), self.desc(T, m["c"], tf)

    def surround(self, m, X, T, xf, tf, xs, ts):
        """junk rows around the selected range that contains all classes"""
        k, k2 = self.r.randint(1, 3), self.r.randint(0, 3)
        X1, _ = self.xdata(k, m["d"], xf["dt"][0] in "iI")
        X2, _ = self.xdata(k2, m["d"], xf["dt"][0] in "iI")
        j = self.r.randrange(m["c"])
        T1 = [[2 if i == j else 0 for i in range(m["c"])]]
        n0 = len(X)
        X, T = X1 + X + X2, T1 * k + T + T1 * k2
        if xf["dt"][0] not in "fF":
            xf = dict(xf, dt="f8")
        return X, T, xf, tf, dict(xs, rows=len(X)), dict(ts, rows=len(X)), k, n0

    def add_data(self, slot, N=None, data=None, rng=None, corr="", async_=None):
        m = self.models[slot]
        cls = m["cls"]
        need_auto = cls == "wc" and not m["wc"]
        N = N or (self.rows(1, 7) if not need_auto else self.rows_auto(1, 7, m["c"]))
        if need_auto:
            N = max(N, m["c"] + 1)
        if async_ is None:
            async_ = m["hp"] and self.chance(self.p.get("async", 0.08))
        X, T, xf, tf, xs, ts = data or self.pair(m, N, cls, m["hp"], True if async_ else None)
        istart, icount = (0, -1) if need_auto else (rng or self.rng_range(len(X), m["hp"]))
        if need_auto and m["hp"] and self.chance(self.p.get("range", .4)):
            X, T, xf, tf, xs, ts, istart, icount = self.surround(m, X, T, xf, tf, xs, ts)
        self.add("add", slot, X=X, T=T, xform=xf, tform=tf, xs=xs, ts=ts, istart=istart, icount=icount,
                 corr=corr, async_=async_)
        m["acc"] = True
        if need_auto:
            m["wc"] = True

    def train(self, slot, N=None, cls=None, batch=None, w=None, async_=None, data=None, rng=None):
        m = self.models[slot]
        if cls is None:
            cls = self.r.choice(self.p.get("cls", ["", "", "c", "wc", "ml"])) if m["c"] > 1 else ""
        N = N or (self.rows(2, 9) if cls != "wc" else self.rows_auto(2, 9, m["c"]))
        W = []
        if cls == "wc":
            N = max(N, m["c"] + 1)
            if w is not None or self.chance(.4):
                W = w or [[self.r.randint(1, 3) for _ in range(m["c"])], self.r.choice([1, 2])]
        if async_ is None:
            async_ = m["hp"] and self.chance(self.p.get("async", 0.08))
        X, T, xf, tf, xs, ts = data or self.pair(m, N, cls, m["hp"], True if async_ else None)
        istart, icount = (0, -1) if cls == "wc" and not W else (rng or self.rng_range(N, m["hp"]))
        if cls == "wc" and not W and m["hp"] and not data and self.chance(self.p.get("range", .4)):
            X, T, xf, tf, xs, ts, istart, icount = self.surround(m, X, T, xf, tf, xs, ts)
        fl = {"": self.r.choice([[], ["R"]]), "c": ["C"], "wc": ["WC"], "ml": [self.pick("ML", "MC")]}[cls]
        b = batch if batch is not None else (self.batch() if self.chance(.5) else 0)
        self.add("train", slot, X=X, T=T, xform=xf, tform=tf, xs=xs, ts=ts, istart=istart, icount=icount,
                 flags=fl, flags_arg=[f.lower() if self.chance(.7) else f for f in fl], w=W, batch=b, async_=async_)
        if b:
            m["batch"] = b
        m.update(cls=cls, wc=cls == "wc", acc=True, B=True)

    def query(self, slot, what=None, N=None, out=None, rng=None, async_=None, form=None):
        m = self.models[slot]
        what = what or self.pick("predict", "project")
        N = N or self.rows(1, 8)
        if what == "predict" and async_ is None:
            async_ = m["hp"] and self.chance(self.p.get("async", .08))
        X, xi = self.xdata(N, m["d"])
        xf = dict(form) if form else self.form(m["d"], xi, m["hp"], True if async_ else None)
        istart, icount = rng or self.rng_range(N, m["hp"])
        n = N - istart if icount < 0 else min(icount, N - istart)
        out = out or self.pick("ret", "ret", "arr", "h5")
        if async_:
            out = "h5"
        if self.open_out and self.chance(.3):
            on = self.r.choice(sorted(self.open_out))
        else:
            self.nout += 1
            on = "o%d" % self.nout
        if m["hp"] and out == "h5":
            self.open_out.add(on)
        self.add(what, slot, X=X, xform=xf, xs=self.desc(X, m["d"], xf), istart=istart if m["hp"] else 0,
                 icount=icount if m["hp"] else -1, out=out, outrows=n, extra=self.r.choice([0, 0, 2]),
                 outname=on, over=self.chance(.25), outlay=self.pick("C", "F", "S"), async_=bool(async_), outdt=self.pick("", "", "f4", "f8"),
                 outnd=1 if what == "predict" and m["c"] == 1 and self.chance(.4) else 2)
        if not form and not async_ and xf["dt"][0] in "fF" and N < 100 and self.chance(.3):     # the same array with other contents
            self.query(slot, what, N, out, form=xf, async_=False)

    def yvals(self, N, c, one=4):
        """predictions times 'one': some are exactly 0.5, few rows have a tie for the maximum"""
        Y = []
        ties = self.chance(.15)
        for _ in range(N):
            row = []
            while len(row) < c:
                v = one // 2 if self.chance(.15) else self.r.randint(-6, 8)
                if one == 16 and self.chance(.6):
                    v += one // 2
                if ties or v not in row:
                    row.append(v)
            Y.append(row)
        return Y

    def ivals(self, N, c, cls, one):
        lo, hi = self.pick((0, 1), (0, 12), (-12, 12))
        if cls in ("c", "wc"):
            T = [[int(j == k) for j in range(c)] for k in [self.r.randrange(c) for _ in range(N)]]
            if hi == 1:
                Y = [[int(j == k) for j in range(c)] for k in [self.r.randrange(c) for _ in range(N)]]
            else:
                Y = [self.r.sample(range(lo, hi + 1), c) for _ in range(N)]
        else:
            T, Y = ([[self.r.randint(lo, hi) for _ in range(c)] for _ in range(N)] for _ in (1, 2))
            if cls == "ml":
                T = [[int(t > 0) for t in row] for row in T]
        ft, fy = ("b1", "u1", "i1", "i2", "u2") if cls or hi == 1 else ("i1", "i2", "i8") if lo else ("u1", "i1", "u2", "i2"), \
                 ("i1", "i2", "i8", "I4") if lo else ("u1", "i1", "u2", "i2") + (("b1", "b1") if hi == 1 else ())
        return [[2 * t for t in row] for row in T], [[one * y for y in row] for row in Y], self.pick(*ft), self.pick(*fy)

    def tvals(self, N, c, cls):
        if cls == "":
            return self.tdata(N, c, "")
        if cls in ("c", "wc"):
            if self.chance(.3):            # some class may be absent
                k = self.r.randrange(c)
                T = []
                for _ in range(N):
                    j = self.r.randrange(c)
                    j = (j + 1) % c if j == k else j
                    T.append([2 if i == j else 0 for i in range(c)])
                return T, "bin"
            return self.tdata(N, c, cls)
        if self.chance(.3):                # exactly 0.5 is no label
            return [[self.r.choice([0, 1, 2]) for _ in range(c)] for _ in range(N)], False
        return self.tdata(N, c, "ml")

    def evaluate(self, slot, what=None, N=None):
        m = self.models[slot]
        if m["cls"] == "wc" and not m["wc"]:
            return
        what = what or self.pick("error", "confusion")
        N = N or self.rows(1, 9)
        T, ti = self.tvals(N, m["c"], m["cls"])
        if (m["cls"] == "c" or m["cls"] == "wc" and what == "confusion") and self.chance(.2):      # not only ones and zeros
            T, ti = [self.r.sample(range(-4, 5 if m["c"] <= 9 else 20), m["c"]) for _ in range(N)], False
        one = self.pick(4, 16) if N <= 60 else 4
        Y = self.yvals(N, m["c"], one)
        tf, yf = self.form(m["c"], ti, m["hp"]), self.form(m["c"], False, m["hp"])
        if N <= 60 and self.chance(.25):           # integers, in small types that hold them
            T, Y, tf["dt"], yf["dt"] = self.ivals(N, m["c"], m["cls"], one)
        istart, icount = self.rng_range(N, m["hp"]) if what == "error" else (0, -1)
        self.add(what, slot, T=T, Y=Y, tform=tf, yform=yf, ts=self.desc(T, m["c"], tf), ys=self.desc(Y, m["c"], yf),
                 istart=istart, icount=icount, yone=one)

    def save(self, slot, name=None):
        name = name or self.pick("s1", "s2")
        self.add("save", slot, name=name, how=self.pick("file", "bytes"))
        self.saved[name] = dict(self.models[slot])

    def load(self, slot, name=None):
        if not self.saved:
            return
        name = name or self.r.choice(sorted(self.saved))
        m, s = self.models[slot], self.saved[name]
        self.add("load", slot, name=name)
        for k in ("d", "c", "L", "B", "cls", "wc", "fs", "opq", "norm"):
            m[k] = s[k] if k != "fs" else list(s[k])
        m["acc"] = False

    # ---------------------------------------------------------- malformed
    def bad_desc(self, rows, cols, hp):
        k = self.pick("cols", "cols-1", "nd3", "str", "obj", "list", "nofile", "badfile", "1d", "nd0")
        z = {"kind": "num", "nd": 2, "rows": rows, "cols": cols}
        if k == "cols":
            z["cols"] += 1
        elif k == "cols-1":
            if cols > 1:
                z["cols"] -= 1
            else:
                z["cols"] += 2
        elif k == "nd3":
            z["nd"] = 3
        elif k == "nd0":
            z.update(nd=0)
        elif k == "1d":
            if cols == 1:
                z["cols"] = 2
            else:
                z.update(nd=1, rows=rows * cols, cols=1)
        else:
            z["kind"] = k
            if k in ("nofile", "badfile"):
                z.update(rows=0)
        return z

    def malformed(self, slot, op=None):
        m = self.models[slot]
        op = op or self.pick("train", "add", "predict", "project", "error", "confusion", "addn", "setB", "setcorr", "loadmissing", "flags", "rows", "rows", "solvecorr")
        N = self.r.randint(1, 5)
        f0 = {"dt": "f8", "lay": "C", "src": self.pick("arr", "h5") if m["hp"] else "arr", "ro": False}
        good = lambda cols: {"kind": "num", "nd": 2, "rows": N, "cols": cols}
        fix = lambda ds, f: dict(f, src="arr") if (ds["kind"] != "num" or ds["nd"] != 2) else f
        if op in ("train", "add"):
            xs, ts = good(m["d"]), good(m["c"])
            if self.chance(.5):
                xs = self.bad_desc(N, m["d"], m["hp"])
            else:
                ts = self.bad_desc(N, m["c"], m["hp"])
            kw = dict(X=None, T=None, xform=fix(xs, f0), tform=fix(ts, f0), xs=xs, ts=ts, istart=0, icount=-1,
                      async_=bool(m["hp"] and f0["src"] == "h5" and self.chance(.3)))
            if op == "train":
                kw.update(flags=[], flags_arg=[], w=[], batch=0)
            self.add(op, slot, **kw)
        elif op == "rows":
            xs, ts = good(m["d"]), good(m["c"])
            (xs if self.chance(.5) else ts)["rows"] = N + self.r.randint(1, 3)
            o = self.pick("train", "add", "error", "confusion")
            if o in ("train", "add"):
                kw = dict(X=None, T=None, xform=f0, tform=f0, xs=xs, ts=ts, istart=0, icount=-1, async_=False)
                if o == "train":
                    kw.update(flags=[], flags_arg=[], w=[], batch=0)
                self.add(o, slot, **kw)
            else:
                xs["cols"] = m["c"]
                self.add(o, slot, T=None, Y=None, tform=f0, yform=f0, ts=ts, ys=xs, istart=0, icount=-1)
        elif op in ("predict", "project"):
            xs = self.bad_desc(N, m["d"], m["hp"])
            self.nout += 1
            self.add(op, slot, X=None, xform=fix(xs, f0), xs=xs, istart=0, icount=-1, out=self.pick("ret", "h5"),
                     outrows=N, extra=0, outname="o%d" % self.nout, async_=False)
        elif op in ("error", "confusion"):
            ts, ys = good(m["c"]), good(m["c"])
            if self.chance(.5):
                ts = self.bad_desc(N, m["c"], m["hp"])
            else:
                ys = self.bad_desc(N, m["c"], m["hp"])
            self.add(op, slot, T=None, Y=None, tform=fix(ts, f0), yform=fix(ys, f0), ts=ts, ys=ys, istart=0, icount=-1)
        elif op == "addn":
            k = self.pick("W", "b", "func", "nfloat")
            n, d = self.r.randint(1, 3), m["d"]
            e = dict(f="lin", n=n, given=True, W=[], b=[], malformed=True)
            if k == "W":
                e.update(wshape=self.pick([d + 1, n], [d, n + 1], [d * n]), bshape=[n])
            elif k == "b":
                e.update(wshape=[d, n], bshape=self.pick([n + 1], [n, 1]))
            elif k == "func":
                e.update(wshape=[d, n], bshape=[n], f=self.pick("sin", "rbf", "SIGM"))
            else:
                e.update(given=False, nshape=2.5)
            self.add("addn", slot, **e)
        elif op == "setB":
            L, c = m["L"], m["c"]
            s = self.pick((L + 1, c), (L, c + 1), (max(L, 1), c + 2))
            self.add("setB", slot, B=[[[1, 0, 0]] * s[1]] * s[0], malformed=True)
        elif op == "setcorr":
            L, c = m["L"], m["c"]
            s = self.pick(((L + 1, L + 1), (L + 1, c)), ((L + 1, L), (L, c)), ((max(L, 1), max(L, 1)), (max(L, 1), c + 1)))
            self.add("setcorr", slot, HH=[[1] * s[0][1]] * s[0][0], HT=[[1] * s[1][1]] * s[1][0], malformed=True)
        elif op == "loadmissing":
            self.add("load", slot, name="nosuch")
        elif op == "flags":
            X, T, xf, tf, xs, ts = self.pair(m, N, "", m["hp"])
            fl = self.r.choice([["C", "WC"], ["ML", "C"], ["C", "MC"], ["V", "CV"], ["LOO", "V"]] + ([["C"], ["WC"], ["ML"]] if m["c"] == 1 else []))
            self.add("train", slot, X=X, T=T, xform=xf, tform=tf, xs=xs, ts=ts, istart=0, icount=-1, flags=fl,
                     flags_arg=[f.lower() if self.chance(.5) else f for f in fl], w=[], batch=0, async_=False)
        elif op == "solvecorr":
            if not m["hp"]:
                return
            self.add("solvecorr", slot, corr="missing")
        # a refused training may have cleared the accumulated data and the configuration
        if op in ("train", "flags", "rows", "add"):
            m["acc"] = False
            self.resync(slot)

    def resync(self, slot):
        m = self.models[slot]
        if m["L"] and not m["opq"]:
            self.train(slot)
        else:
            m["cls"] = "?"     # unknown: not used again before the next training

    # ------------------------------------------------------------- driver
    def step(self):
        ops = self.p["ops"]
        op = self.r.choices(list(ops), list(ops.values()))[0]
        s = self.slot()
        if s is None:
            self.new()
            return
        m = self.models[s]
        if op == "new":
            self.new()
        elif op == "del":
            if len(self.models) > 1:
                del self.models[s]
                self.add("del", s)
        elif op == "addn":
            if m["L"] < self.p.get("maxL", 5):
                self.addn(s)
        elif op == "addn_default":
            if m["L"] < self.p.get("maxL", 5):
                self.addn_default(s, self.pick("lin", "tanh", "sigm", "rbf_l1", "rbf_l2", "rbf_linf") if self.p.get("opaque", True) else "lin", self.r.randint(1, 4))
        elif op == "add":
            if m["L"] and m["cls"] != "?":
                self.add_data(s)
            elif not m["L"] and self.chance(.2):
                self.add_data_noneurons(s)
        elif op == "train":
            if m["L"]:
                self.train(s)
            elif self.chance(.2):
                self.train(s)
                m.update(B=False, acc=False, cls="?", wc=False)
        elif op == "reset":
            self.add("reset", s)
            m["acc"] = False
        elif op == "solve":
            if m["acc"] or self.chance(.2):
                self.add("solve", s)
                if m["acc"]:
                    m["B"] = True
        elif op in ("predict", "project"):
            if m["B"] or self.chance(.3):
                self.query(s, op)
        elif op in ("error", "confusion"):
            if m["cls"] != "?":
                self.evaluate(s, op)
        elif op == "save":
            if m["cls"] != "?":
                self.save(s)
        elif op == "load":
            self.load(s)
        elif op == "setB":
            if m["L"]:
                B = [[[self.r.randint(-3, 3), 150 * self.r.randint(0, 1), 0] for _ in range(m["c"])] for _ in range(m["L"])]
                self.add("setB", s, B=B, malformed=False)
                m["B"] = True
        elif op == "setcorr":
            if m["L"] and not m["opq"]:
                n = m["L"]
                A = [[self.r.randint(-2, 2) for _ in range(n)] for _ in range(n + 1)]
                HH = [[sum(A[k][i] * A[k][j] for k in range(n + 1)) + (i == j) * 2 for j in range(n)] for i in range(n)]
                HT = [[self.r.randint(-5, 5) for _ in range(m["c"])] for _ in range(n)]
                self.add("setcorr", s, HH=HH, HT=HT, malformed=False, form={"lay": self.pick("C", "F")})
                m["acc"] = True
        elif op == "setbatch":
            m["batch"] = self.batch()
            self.add("setbatch", s, batch=m["batch"])
        elif op == "malformed":
            self.malformed(s)
        elif op == "addcorr":
            self.addcorr(s)
        elif op == "solvecorr":
            c = self.r.choice(["f1", "f2"])
            if m["hp"] and c in self.corr:
                k = self.corr[c]
                self.add("solvecorr", s, corr=c)
                if k == (m["L"], m["c"]):
                    m["B"] = True

    def addcorr(self, s):
        m = self.models[s]
        if not m["hp"] or not m["L"] or m["opq"] or m["cls"] == "?":
            return
        c = self.r.choice(["f1", "f2"])
        k = self.corr.setdefault(c, (m["L"], m["c"]))
        if k == (m["L"], m["c"]):
            self.add_data(s, corr=c)
        else:
            X, T, xf, tf, xs, ts = self.pair(m, 4, "", True)
            self.add("add", s, X=X, T=T, xform=xf, tform=tf, xs=xs, ts=ts, istart=0, icount=-1, corr=c, async_=False)
            m["acc"] = False

    def add_data_noneurons(self, s):
        m = self.models[s]
        X, T, xf, tf, xs, ts = self.pair(m, 3, "", m["hp"])
        self.add("add", s, X=X, T=T, xform=xf, tform=tf, xs=xs, ts=ts, istart=0, icount=-1, corr="", async_=False)
        if m["cls"] == "wc":
            m["cls"] = "?"     # a refused call may have chosen class weights


def history(seed, n, prof, sid):
    rng = random.Random("%s/%s" % (seed, sid))
    g = G(rng, **prof)
    for f in prof.get("start", []):
        f(g)
    guard = 0
    while len(g.ev) < n and guard < 40 * n:
        guard += 1
        g.step()
    return {"id": sid, "kind": "life", "seed": rng.randrange(10**6), "events": g.ev}
