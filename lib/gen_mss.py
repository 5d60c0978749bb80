"""Calls of ELM.train with model structure selection: on random models and data (mss), and on
orthogonal hidden layers for which the specification knows every candidate exactly (ortho)."""
import random
import gen_life


def sylvester(n):
    H = [[1]]
    while len(H) < n:
        H = [r + r for r in H] + [r + [-x for x in r] for r in H]
    return H


class GM(gen_life.G):
    def flags_of(self, method, cls, op):
        fl = [method] + {"": self.r.choice([[], ["R"]]), "c": ["C"], "wc": ["WC"], "ml": [self.pick("ML", "MC")]}[cls]
        if op:
            fl.append("OP")
        self.r.shuffle(fl)
        return fl

    def emit(self, slot, X, T, Xv_, Tv_, method, cls, op, kmax, k, w, ints, tints, ortho, batch=0, **kw):
        m = self.models[slot]
        xf, tf = self.form(m["d"], ints, False), self.form(m["c"], tints, False)
        xvf, tvf = self.form(m["d"], ints, False), self.form(m["c"], tints, False)
        fl = self.flags_of(method, cls, op)
        e = dict(X=X, T=T, xform=xf, tform=tf, xs=self.desc(X, m["d"], xf), ts=self.desc(T, m["c"], tf),
                 Xv=Xv_ or [], Tv=Tv_ or [], flags=fl, flags_arg=[f.lower() if self.chance(.6) else f for f in fl],
                 w=w, batch=batch, kmax=kmax, k=k, noval=method == "V" and Xv_ is None, istart=0, icount=-1, ortho=ortho)
        if Xv_ is not None:
            e.update(xvform=xvf, tvform=tvf, xvs=self.desc(Xv_, m["d"], xvf), tvs=self.desc(Tv_, m["c"], tvf))
        e.update(kw)
        self.add("mss", slot, **e)
        if batch:
            m["batch"] = batch
        m.update(cls=cls, wc=cls == "wc", acc=True, B=True)

    # ------------------------------------------------------------ any model
    def mss(self, slot):
        m = self.models[slot]
        r = self.r
        meth = r.choice(["V", "CV", "LOO"] if m["norm"] >= 1 or self.chance(.5) else ["V", "CV"])
        cls = r.choice(self.p.get("cls", ["", "c", "wc", "ml"])) if m["c"] > 1 else ""
        k = r.randint(3, 5) if meth == "CV" else 0
        N = r.randint(max(4, k, m["c"] + 1), 12 if self.chance(.85) else 50)
        W = []
        if cls == "wc" and self.chance(.5):
            W = [[r.randint(1, 3) for _ in range(m["c"])], r.choice([1, 2])]
        X, xi = self.xdata(N, m["d"])
        T, ti = self.tdata(N, m["c"], cls)
        Xv = Tv = None
        if meth == "V":
            Nv = r.randint(2, 8 if self.chance(.85) else 40)
            Xv, _ = self.xdata(Nv, m["d"], xi)
            Tv, _ = self.tdata(Nv, m["c"], cls)
            if cls == "" and ti:
                Tv = [[2 * (x // 2) for x in row] for row in Tv]
        op = self.chance(.5)
        kmax = r.randint(1, max(m["L"], 1) + 1) if self.chance(.6 if op else .1) else 0
        b = self.batch() if self.chance(.4) else 0
        kw = {}
        if self.chance(self.p.get("badmss", .1)):       # refused calls
            if meth == "CV":
                k = r.choice([0, 1, 2])
            elif meth == "V":
                if self.chance(.5):
                    Xv = None
                else:
                    good = lambda cols: {"kind": "num", "nd": 2, "rows": 3, "cols": cols}
                    xvs, tvs = good(m["d"]), good(m["c"])
                    j = r.choice(["x", "t", "rows"])
                    if j == "x":
                        xvs = self.bad_desc(3, m["d"], False)
                    elif j == "t":
                        tvs = self.bad_desc(3, m["c"], False)
                    else:
                        tvs["rows"] += 1
                    kw = dict(xvs=xvs, tvs=tvs, Xv=[], Tv=[])
                    f = {"dt": "f8", "lay": "C", "src": "arr", "ro": False}
                    kw.update(xvform=f, tvform=f)
        bad = bool(kw) or (meth == "V" and Xv is None) or (meth == "CV" and k < 3)
        self.emit(slot, X, T, Xv, Tv, meth, cls, op, kmax, k, W, xi, ti, False, b, **kw)
        if bad:
            m["acc"] = False
            self.train(slot)

    def step(self):
        w = self.p["ops"].get("mss", 0)
        if w and self.r.random() < w:
            s = self.slot(hp=False)
            if s and self.models[s]["L"]:
                self.mss(s)
                return
        ops = self.p["ops"]
        self.p["ops"] = {k: v for k, v in ops.items() if k != "mss"}
        try:
            super().step()
        finally:
            self.p["ops"] = ops

    # ------------------------------------------------ orthogonal hidden layer
    def decided(self, meth, cls, op, k, X, T, Xv, Tv, W, norm):
        """do exact values decide every comparison of the structure selection? (only steers the generator)"""
        L, c = len(X[0]), len(T[0])

        def fit(H, T):
            w = [1] * len(T)
            d = 1
            if cls == "wc":
                cnt = [max(1, sum(t[q] == 2 for t in T0)) for q in range(c)]
                if W:
                    n, d = W
                else:
                    n = [1] * c if len(set(cnt)) == 1 else [len(T0) * 840 // x for x in cnt]
                    d = 1 if len(set(cnt)) == 1 else 840
                w = [n[t.index(2)] for t in T]
            q = sum(w) + max(norm, 0) * d
            return q, [[sum(w[r] * H[r][j] * T[r][z] for r in range(len(T))) for z in range(c)] for j in range(L)]

        def order(H, T):
            a = [[sum(H[r][j] * T[r][z] for r in range(len(T))) for z in range(c)] for j in range(L)]
            a = [sum(abs(x) for x in v) if c < 10 else sum(x * x for x in v) for v in a]
            return sorted(range(L), key=lambda j: -a[j]) if len(set(a)) == L else None

        def clear(f, H, S):
            if cls == "":
                return True
            q, a = f
            for h in H:
                p = [sum(h[j] * a[j][z] for j in S) for z in range(c)]
                if q in p if cls == "ml" else p.count(max(p)) > 1:
                    return False
            return True
        T0 = T
        half = lambda X: [[x // 2 for x in r] for r in X]
        H = half(X)
        if meth == "CV":
            parts = [list(range(i, len(X), k)) for i in range(k)]
            pick = lambda M, ids: [M[r] for i in ids for r in parts[i % k]]
            sets = [(pick(H, range(i, i + k - 2)), pick(T, range(i, i + k - 2)), pick(H, [i + k - 2]), pick(T, [i + k - 2])) for i in range(k)]
        elif meth == "V":
            sets = [(H, T, half(Xv), Tv)]
        else:
            sets = [(H, T, H, T)]
        for Ht, Tt, Hv, Tv_ in sets:
            f = fit(Ht, Tt)
            if op:
                o = order(Hv, Tv_)
                if o is None:
                    return False
                cand = [o[:i] for i in range(1, L + 1)]
            else:
                cand = [[j for j in range(L) if b >> j & 1] for b in range(1, 1 << L)]
            if not all(clear(f, Hv, S) for S in cand):
                return False
        return True

    def block(self, Hd, cols, inform=None):
        """rows of a Hadamard matrix in random order and with random signs; with inform=j mostly +1 in column j"""
        rows = list(Hd)
        self.r.shuffle(rows)
        res = []
        for h in rows:
            s = self.r.choice([1, -1])
            if inform is not None:
                s = h[cols[inform]] * (1 if self.chance(.8) else -1)
            res.append([s * h[j] for j in cols])
        return res

    def ortho(self, slot):
        r = self.r
        conf = r.choice(["V", "V", "LOO", "CV", "CV"]), self.chance(.6), r.choice(["", "", "c", "wc", "ml"])
        if conf[0] == "CV" and not conf[1]:
            conf = conf[:2] + ("",)
        for i in range(40):
            x = self.design(*conf)
            if x[-1] or self.chance(.01):
                break
        self.ortho_call(slot, *x[:-1])

    def design(self, meth, op, cls):
        r = self.r
        c = 1 if cls == "" and self.chance(.4) else r.choice([2, 2, 3])
        if cls == "" and op and meth == "V" and self.chance(.15):
            c = 10
        M = r.choice([4, 8, 8, 16] if op and c < 10 and not (meth == "CV" and cls != "") else [4, 8])
        L = r.randint(1, M) if op else r.randint(1, min(M, 5))
        if op and self.chance(.5):
            L = r.randint(max(1, M // 2), M)
        sized = meth == "CV" and not op
        if sized:
            L = min(L, M - 1)
        Hd = sylvester(M)
        cols = list(range(M))
        r.shuffle(cols)
        rest = cols[L:]
        cols = cols[:L]
        k = r.choice([3, 3, 4, 5]) if meth == "CV" and M <= 8 else (3 if meth == "CV" else 0)
        nblk = c if cls == "wc" else r.choice([1, 1, 2])
        if meth == "CV" and M == 16 or c == 10:
            nblk = 1 if cls != "wc" else nblk
        if op and cls == "" and self.chance(.5):
            mag = list(range(1, L + 1))
            r.shuffle(mag)
            coef = [[r.choice([1, -1]) * (mag[j] if q == 0 else r.choice([0, 0, 1])) for j in range(L)] for q in range(c)]
        else:
            coef = [[(r.choice([-2, -1, 1, 2, 2, 3]) if self.chance(.5) else 0) if L <= 8 else (r.choice([-2, -1, 1, 2]) if self.chance(.3) else 0) for _ in range(L)] for _ in range(c)]
        if cls == "wc":
            info = [r.randrange(L) for _ in range(c)]

        def data():
            """one set of rows, doubled values"""
            X, T = [], []
            for b in range(nblk):
                if sized:
                    blk = self.block(Hd, cols + rest[:1])
                else:
                    blk = self.block(Hd, cols, info[b] if cls == "wc" else None)
                for h in blk:
                    X.append([2 * x for x in h[:L]])
                    if sized:
                        T.append([sz[q][0] * sum(h[:L]) + sz[q][1] * h[L] for q in range(c)])
                    elif cls == "":
                        T.append([sum(a * x for a, x in zip(coef[q], h)) + r.choice([-1, 0, 0, 1]) for q in range(c)])
                    elif cls == "wc":
                        T.append([2 if q == b else 0 for q in range(c)])
                    elif cls == "c":
                        y = [sum(a * x for a, x in zip(coef[q], h)) + 2 * r.random() for q in range(c)]
                        j = y.index(max(y))
                        T.append([2 if q == j else 0 for q in range(c)])
                    else:
                        T.append([2 if sum(a * x for a, x in zip(coef[q], h)) + r.choice([-1, .5, 1]) > 0 else 0 for q in range(c)])
            return X, T

        sz = [(r.choice([1, 2]), r.choice([0, 1, 2, 4])) for _ in range(c)]
        if meth == "CV":
            parts, c0, vary = [], coef, op and self.chance(.7)
            for i in range(k):
                if vary:                         # parts of different kinds
                    coef = [[(a if self.chance(.7) else r.choice([-1, 0, 1, 3])) for a in row] for row in c0]
                    if cls == "wc":
                        info = [r.randrange(L) if self.chance(.3) else j for j in info]
                parts.append(data())
            n = len(parts[0][0])
            X = [parts[i][0][q] for q in range(n) for i in range(k)]
            T = [parts[i][1][q] for q in range(n) for i in range(k)]
            Xv = Tv = None
        else:
            X, T = data()
            Xv = Tv = None
            if meth == "V":
                if self.chance(.5):      # validation data of another kind
                    coef = [[a if self.chance(.7) else r.choice([-1, 0, 1]) for a in row] for row in coef]
                Xv, Tv = data()
        W = []
        if cls == "wc" and self.chance(.6):
            W = [[r.randint(1, 3) for _ in range(c)], r.choice([1, 2])]
        norm = r.choice([-1, 0, 1, 2, 3])
        if meth == "LOO" and len(X) <= L:
            norm = 1
        kmax = r.randint(1, L) if op and self.chance(.4) else 0
        ok = self.decided(meth, cls, op, k, X, T, Xv, Tv, W, norm)
        return meth, op, cls, c, L, k, X, T, Xv, Tv, W, norm, kmax, ok

    def ortho_call(self, slot, meth, op, cls, c, L, k, X, T, Xv, Tv, W, norm, kmax):
        r = self.r
        self.new(slot, d=L, c=c, hp=False, cls=self.pick("", cls), norm=norm, prec=64)
        groups = {}
        for j in range(L):
            f = r.choice(["lin", "lin", "tanh", "sign"])
            groups.setdefault(f, []).append(j)
        for f, js in groups.items():
            w = [[(64 if f == "tanh" else 1) * r.choice([1, -1]) if i == j else 0 for i in range(L)] for j in js]
            self.addn(slot, f, len(js), (w, [0] * len(js)))
        bin_ = "bin" if cls else all(x % 2 == 0 for row in T + (Tv or []) for x in row)
        self.emit(slot, X, T, Xv, Tv, meth, cls, op, kmax, k, W, True, bin_, True)
        m = self.models[slot]
        if self.chance(.3):
            self.query(slot, "predict", N=3, out="ret")

    # ------------------------------------------------- small layers of any kind
    def small(self, slot, phase=0):
        """phase 1: leaves one neuron; phase 2: selects again after neurons were added to that model"""
        r = self.r
        meth = r.choice(["V", "V", "LOO", "LOO", "LOO", "LOO", "CV"] if phase == 0 else ["V", "V", "LOO", "CV"] if phase == 1 else ["V", "V", "LOO"])
        op = phase > 0 or self.chance({"V": .7, "LOO": .85, "CV": .95}[meth])
        c = r.choice([1, 2, 2, 3])
        d = r.choice([1, 2, 3, 3, 4])
        norm = r.choice([-1, 1, 1, 2, 3, .25, .5, 1.5])
        L = r.choice([2, 3, 4, 4, 4]) if phase != 2 else r.choice([3, 4])
        dup = phase == 0 and meth == "LOO" and self.chance(.15)     # equal neurons
        pen = phase == 0 and not dup and self.chance(.2)           # the size of the penalty decides
        if pen:
            meth = r.choice(["V", "LOO", "CV", "CV"])
            op, c, L = True, r.choice([1, 1, 2]), r.choice([2, 3, 4] if meth != "CV" else [4])
        if dup:
            norm = -1
        if phase == 2:
            m = self.models[slot]
            c, d, norm = m["c"], m["d"], m["norm"]
        cls = r.choice(["", "c", "wc", "ml"]) if c > 1 and not pen else ""
        if phase < 2:
            self.new(slot, d=d, c=c, hp=False, cls=self.pick("", cls), norm=norm, prec=64)
            m = self.models[slot]
        groups = {}
        if phase == 2:
            m["L"] = 1
            groups["lin"] = [([0] * d, 1024)]       # not known

        def put(f, n, cols):
            self.addn(slot, f, n, cols)
            groups.setdefault(f, []).extend(zip(*cols))
        if self.chance(.5):          # inputs themselves
            n = min(L - dup - m["L"], d)
            put(r.choice(["lin", "lin", "absolute"]), n, ([[1 if i == j else 0 for i in range(d)] for j in range(n)], [0] * n))
        while m["L"] < L - dup:
            f, n = r.choice(["lin", "absolute", "sign", "tanh", "floor", "sigm"] if not pen else ["lin", "absolute", "sign", "tanh"]), r.randint(1, L - dup - m["L"])
            w, b = self.cols(f, n, d)
            put(f, n, (w, [0] * n if pen else b))
        if dup:
            f = r.choice(sorted(groups))
            w, b = r.choice(groups[f])
            put(f, 1, ([[x * (r.choice([1, -1]) if b == 0 and f == "lin" else 1) for x in w]], [b]))
        neurons = [(f, w, b) for f in groups for w, b in groups[f]]
        k = r.choice([3, 3, 4]) if meth == "CV" else 0
        W = [[r.randint(1, 3) for _ in range(c)], r.choice([1, 2])] if cls == "wc" and self.chance(.6) else []
        kmax = 1 if phase == 1 else r.randint(1, L) if op and self.chance(.3) else 0
        best = None
        for _ in range(10 if not dup else 1):
            if pen:
                break
            x = self.small_data(meth, cls, c, d, k, L)
            sc = sensitivity(meth, cls, neurons, W, max(norm, 0), kmax or L, k, *x[:4]) if op else 9
            if best is None or sc > best[0]:
                best = sc, x
            if sc >= 2:
                break
        for _ in range(60 if pen else 0):
            X, T, Xv, Tv, xi = self.small_data(meth, cls, c, d, k, L, 12 if meth == "CV" else 0)
            X, T = X[:len(X) - len(X) % max(k, 1)], T[:len(X) - len(X) % max(k, 1)]
            z = [r.randint(2, 80) for _ in range(c)]
            x0, t0 = [[0] * d] * max(k, 1), [z] * max(k, 1)         # adds a constant to the error of every selection
            if meth == "V":
                Xv, Tv = Xv + x0, Tv + t0
            else:
                X, T = X + x0, T + t0
            sc = sensitivity(meth, cls, neurons, W, max(norm, 0), kmax or L, k, X, T, Xv, Tv, True)
            if best is None or sc > best[0]:
                best = sc, (X, T, Xv, Tv, xi)
            if sc >= 2:
                break
        X, T, Xv, Tv, xi = best[1]
        tints = "bin" if cls else all(x % 2 == 0 for row in T + (Tv or []) for x in row)
        self.emit(slot, X, T, Xv, Tv, meth, cls, op, kmax, k, W, xi, tints, False, gen=1)

    def small_data(self, meth, cls, c, d, k, L, more=0):
        r = self.r
        N = r.randint(max(2 * k, L + 1, c + 1), 10 if meth != "CV" else 12) + more
        co = [[r.choice([-2, -1, 0, 0, 1, 2]) for _ in range(d)] for _ in range(c)]
        noise = r.choice([0, 1, 1, 3])
        out = self.chance(.5)

        def data(N, xi=None):
            X, xi = self.xdata(N, d, xi)
            if out:                      # rows of unequal leverage
                X = [[x * f for x in row] for row in X for f in [r.choice([1, 1, 1, 2, 4])]]
            Y = [[sum(a * x for a, x in zip(q, row)) + r.randint(-noise, noise) for q in co] for row in X]
            if cls == "":
                return X, Y, xi
            if cls == "ml":
                return X, [[2 if y > 0 else 0 for y in row] for row in Y], xi
            cl = [row.index(max(row)) for row in Y]
            if cls == "wc":
                for q in range(c):
                    if q not in cl:
                        free = [i for i in range(N) if cl.count(cl[i]) > 1]
                        cl[r.choice(free)] = q
            return X, [[2 if j == q else 0 for j in range(c)] for q in cl], xi
        X, T, xi = data(N)
        Xv = Tv = None
        if meth == "V":
            Xv, Tv, _ = data(r.randint(max(2, c), 9), xi)
        return X, T, Xv, Tv, xi


def value(f, w, b, x):
    """the (doubled) value of a neuron"""
    z = sum(p * q for p, q in zip(w, x)) + b // 512
    if f == "lin":
        return z
    if f == "absolute":
        return abs(z)
    if f == "floor":
        return 2 * (z // 2)
    if f == "sigm":
        return 1 if z == 0 else 0 if z >= 40 else 2
    return 0 if z == 0 else 2 if z > 0 else -2


def inverse(A):
    n = len(A)
    M = [list(map(float, A[i])) + [1. * (i == j) for j in range(n)] for i in range(n)]
    for i in range(n):
        p = max(range(i, n), key=lambda q: abs(M[q][i]))
        if abs(M[p][i]) < 1e-6:
            return None
        M[i], M[p] = M[p], M[i]
        M[i] = [x / M[i][i] for x in M[i]]
        for q in range(n):
            if q != i:
                M[q] = [x - M[q][i] * y for x, y in zip(M[q], M[i])]
    return [row[n:] for row in M]


def sensitivity(meth, cls, neurons, W, norm, n, k, X, T, Xv, Tv, pens=False):
    """how many plausible mistakes in the criterion would change the choice? (only steers the generator)"""
    half = lambda M: [[x / 2. for x in row] for row in M]
    hid = lambda X: [[value(f, w, b, x) / 2. for f, w, b in neurons] for x in X]
    L, c = len(neurons), len(T[0])
    cnt = [max(1, sum(t[q] == 2 for t in T)) for q in range(c)]
    wc = [1.] * c if cls != "wc" else [x / W[1] for x in W[0]] if W else [len(T) / float(x) for x in cnt]
    H, T = hid(X), half(T)

    def fit(H, T, S, wc, norm):
        w = [wc[t.index(1.)] if cls == "wc" else 1. for t in T]
        A = [[sum(q * h[i] * h[j] for q, h in zip(w, H)) + norm * (i == j) for j in S] for i in S]
        P = inverse(A)
        if P is None:
            return None, None
        C = [[sum(q * h[i] * t[z] for q, h, t in zip(w, H, T)) for z in range(c)] for i in S]
        return P, [[sum(p * C[i][z] for i, p in enumerate(row)) for z in range(c)] for row in P]

    def error(H, T, S, P, B, wc, press):
        e = []
        for h, t in zip(H, T):
            y = [sum(h[j] * B[i][z] for i, j in enumerate(S)) for z in range(c)]
            if cls == "":
                e.append(sum((a - b) ** 2 for a, b in zip(y, t)) / c)
            elif cls == "ml":
                e.append(sum((a > .5) != (b > .5) for a, b in zip(y, t)) / float(c))
            else:
                e.append(1. * (y.index(max(y)) != t.index(1.)))
        R = [1 - sum(h[i] * h[j] * P[a][b] for a, i in enumerate(S) for b, j in enumerate(S)) for h in H]
        if press == "mean":
            if cls == "wc":
                R = [sum(r for r, t in zip(R, T) if t == u) / T.count(u) for u in T]
            else:
                R = [sum(R) / len(R)] * len(R)
        if press == "mean2":
            R = [sum(R) / len(R)] * len(R)
        if press:
            e = [x / r ** 2 if abs(r) > .01 else 1e9 for x, r in zip(e, R)]
        if cls == "wc":
            return sum(wc[t.index(1.)] * x / T.count(t) for x, t in zip(e, T)) / sum(wc)
        return sum(e) / len(e)

    def order(H, T):
        a = [sum(abs(sum(h[j] * t[z] for h, t in zip(H, T))) for z in range(c)) for j in range(L)]
        return sorted(range(L), key=lambda j: -a[j])

    def best(sets, wc, norm, press, pen, first):
        def crit(i, od):
            tot = 0
            for (Ht, Tt, He, Te), o in zip(sets, od):
                P, B = fit(Ht, Tt, o[:i], wc, norm)
                if P is None:
                    return None
                tot += error(He, Te, o[:i], P, B, wc, press) / len(sets)
            return tot
        od = [order(He, Te) for _, _, He, Te in sets]
        a = crit(L, od)
        e = [crit(i, od) for i in range(first, n + 1)]
        if a is None or None in e:
            return None
        e = [x + pen * a * i / n for i, x in enumerate(e)]
        return e.index(min(e))
    if meth == "V":
        sets = [(H, T, hid(Xv), half(Tv))]
    elif meth == "LOO":
        sets = [(H, T, H, T)]
    else:
        p = lambda M, ids: [M[r] for i in ids for r in range(i % k, len(M), k)]
        sets = [(p(H, range(i, i + k - 2)), p(T, range(i, i + k - 2)), p(H, [i + k - 2]), p(T, [i + k - 2])) for i in range(k)]
    first = min(3, n) if meth == "CV" else 1
    press = "yes" if meth == "LOO" else ""
    base = best(sets, wc, norm, press, .01, first)
    if base is None:
        return -1
    if pens:
        res = [best(sets, wc, norm, press, p, first) for p in (.005, .007, .014, .02)]
        return sum(x is not None and x != base for x in res)
    var = [(sets, wc, norm, press, 0), (sets, wc, norm, press, .05)]
    if norm:
        var.append((sets, wc, 0, press, .01))
    if press:
        var += [(sets, wc, norm, "", .01), (sets, wc, norm, "mean", .01), (sets, wc, norm, "mean2", .01)]
    else:
        var.append(([(a, b, a, b) for a, b, _, _ in sets], wc, norm, press, .01))
        var.append(([(a + x, b + y, x, y) for a, b, x, y in sets], wc, norm, press, .01))
    if cls == "wc":
        var.append((sets, [1.] * c, norm, press, .01))
    res = [best(*(v + (first,))) for v in var]
    return sum(x is not None and x != base for x in res)


def small_history(seed, sid, n=1):
    rng = random.Random("%s/%s" % (seed, sid))
    g = GM(rng, forms=True, batch=[1, 3, 7, 1000])
    for i in range(n):
        if g.chance(.2):
            g.small("a", 1)
            g.small("a", 2)
        else:
            g.small("a")
    return {"id": sid, "kind": "life", "seed": rng.randrange(10**6), "events": g.ev}


def history(seed, n, prof, sid):
    rng = random.Random("%s/%s" % (seed, sid))
    g = GM(rng, **prof)
    for f in prof.get("start", []):
        f(g)
    guard = 0
    while len(g.ev) < n and guard < 40 * n:
        guard += 1
        g.step()
    return {"id": sid, "kind": "life", "seed": rng.randrange(10**6), "events": g.ev}


def ortho_history(seed, sid, n=2):
    rng = random.Random("%s/%s" % (seed, sid))
    g = GM(rng, forms=True, batch=[1, 3, 7, 1000])
    for i in range(n):
        g.ortho("a")
    return {"id": sid, "kind": "life", "seed": rng.randrange(10**6), "events": g.ev}
