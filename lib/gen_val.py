"""Histories with HPELM.validation_corr: accumulate into files by one or several models, evaluate all sizes."""
import random
import gen_life
from gen_mss import sylvester


class GV(gen_life.G):
    def val(self, slot, corr, N=None, bad=""):
        r = self.r
        m = self.models[slot]
        N = N or (r.randint(1, 12) if self.chance(.85) else r.randint(13, 50))
        X, xi = self.xdata(N, m["d"])
        T, ti = self.tdata(N, m["c"], m["cls"])
        xf, tf = self.form(m["d"], xi, True, self.chance(.6)), self.form(m["c"], ti, True, self.chance(.6))
        xs, ts = self.desc(X, m["d"], xf), self.desc(T, m["c"], tf)
        L = m["L"]
        if self.chance(.4):
            st = {"vec": True, "v": sorted(r.sample(range(1, L + 1), r.randint(1, L))), "tuple": self.chance(.3), "n": 0}
            if self.chance(.3):
                r.shuffle(st["v"])
                st["v"] += st["v"][:1]
        else:
            st = {"vec": False, "n": r.choice([2, 3, 5, 10, 20]), "v": []}
            if self.chance(.2):
                st.update(n=10, default=True)
        if bad == "sizes":
            st = {"vec": True, "v": r.choice([[L + 1], [0, 1], [1, L + 2]]), "n": 0}
        elif bad == "data":
            X = T = None
            xs, ts = {"kind": "num", "nd": 2, "rows": N, "cols": m["d"]}, {"kind": "num", "nd": 2, "rows": N, "cols": m["c"]}
            xf = tf = {"dt": "f8", "lay": "C", "src": "h5", "ro": False}
            j = r.choice(["x", "t", "rows"])
            if j == "rows":
                ts["rows"] += 1
            elif j == "x":
                xs["cols"] += 1
            else:
                ts["cols"] += 1
        elif bad == "corr":
            corr = "missing"
        self.add("valcorr", slot, corr=corr, X=X, T=T, xform=xf, tform=tf, xs=xs, ts=ts, steps=st, istart=0, icount=-1)
        if not bad:
            m.update(acc=False, B=True, L=-1)


def ortho_neurons(g, L):
    """neurons that give the sign vectors of a Hadamard matrix on their inputs"""
    r = g.r
    js = list(range(L))
    for f in r.sample(["lin", "tanh", "sign"], r.randint(1, 3)):
        n = r.randint(0, len(js)) if f != "x" else 0
        if n:
            g.addn("a", f, n, ([[(64 if f == "tanh" else 1) * (1 if i == j else 0) for i in range(L)] for j in js[:n]], [0] * n))
            js = js[n:]
    if js:
        g.addn("a", "lin", len(js), ([[1 if i == j else 0 for i in range(L)] for j in js], [0] * len(js)))


def history(seed, sid, prof):
    rng = random.Random("%s/%s" % (seed, sid))
    g = GV(rng, **prof)
    r = g.r
    c = r.choice([1, 2, 2, 3, 3, 6])
    cls = r.choice(["", "", "c", "wc", "ml"]) if c > 1 else ""
    kind = r.choice(["any", "any", "any", "ortho", "twins", "large"])
    norm = r.choice([1, 1, 2, 3, -1] + ([.25, .5, 1.5] if kind != "ortho" else []))
    if kind == "ortho":
        M = r.choice([4, 8, 16])
        L = r.randint(1, M)
        g.new("a", d=L, c=c, hp=True, cls=cls, norm=max(norm, 1))
        m = g.models["a"]
        ortho_neurons(g, L)
        cols = r.sample(range(M), L)
        H = [[h[j] for j in cols] for h in sylvester(M)]
        r.shuffle(H)
        blocks = [H] * (c if cls == "wc" else r.choice([1, 2]))
        for b, Hb in enumerate(blocks):
            X = [[2 * x for x in h] for h in Hb]
            if cls == "wc":
                T = [[2 if q == b else 0 for q in range(c)] for _ in X]
                if not m["wc"]:
                    continue
            else:
                T, _ = g.tdata(len(X), c, cls)
            xf, tf = g.form(L, True, True), g.form(c, False, True)
            g.add_data("a", data=(X, T, xf, tf, g.desc(X, L, xf), g.desc(T, c, tf)), rng=(0, -1), corr="f1")
        if cls == "wc" and not m["wc"]:
            X = [[2 * x for x in h] for Hb in blocks for h in Hb]
            T = [[2 if q == b else 0 for q in range(c)] for b, Hb in enumerate(blocks) for _ in Hb]
            xf, tf = g.form(L, True, True), g.form(c, False, True)
            g.add_data("a", data=(X, T, xf, tf, g.desc(X, L, xf), g.desc(T, c, tf)), rng=(0, -1), corr="f1")
        s = "a"
    else:
        d = r.choice([1, 2, 2, 3, 7])
        g.new("a", d=d, c=c, hp=True, cls=cls, norm=norm, prec=64 if g.chance(.85) else 32)
        m = g.models["a"]
        L = r.randint(1, 4) if kind != "large" else r.choice([r.randint(5, 12), r.randint(13, 30)])
        while m["L"] < L:
            g.addn("a", n=r.randint(1, L - m["L"]))
        s = "a"
        if kind == "twins":
            g.save("a", "s1")
            g.new("b", d=d, c=c, hp=True, cls=cls, norm=norm, prec=64)
            g.load("b", "s1")
        for i in range(r.randint(1, 3)):
            t = r.choice(sorted(g.models))
            N = r.randint(2, 8)
            g.add_data(t, N=N, corr="f1")
        if kind == "twins":
            s = r.choice([t for t in sorted(g.models) if g.models[t]["cls"] != "wc" or g.models[t]["wc"]])
    if g.chance(.15):
        g.val(s, "f1", bad=r.choice(["sizes", "data", "corr"]))
    if g.chance(.2):
        g.models[s]["batch"] = r.choice([1, 2, 3, 5, 1000])
        g.add("setbatch", s, batch=g.models[s]["batch"])
    if g.chance(.3):
        g.query(s, r.choice(["predict", "project"]) if g.models[s]["B"] else "project", N=3)
    g.val(s, "f1")
    g.query(s, r.choice(["predict", "project"]), N=4)
    if g.chance(.3):
        m = g.models[s]
        m["L"] = 1
        g.train(s, cls=m["cls"])
    return {"id": sid, "kind": "life", "seed": rng.randrange(10**6), "events": g.ev}
