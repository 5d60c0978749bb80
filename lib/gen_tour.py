"""Walks through the state graph of ElmMC that cover every transition, as histories of calls on real objects."""
import collections, random
import gen_life

CONF = {"a": dict(d=2, c=2, prec=64, norm=1, cls="", batch=2), "b": dict(d=2, c=2, prec=32, norm=2.5, cls="wc", batch=3)}
NEURON = {"n1": ("lin", [[1, -1]], [512]), "n2": ("tanh", [[64, 0]], [32768]), "n3": ("lin", [[0, 1]], [0])}
X = {"D1": [[1, 2], [-2, 0], [3, 1]], "D2": [[0, -1], [2, 2]]}
T = {"D1": [[2, 0], [0, 2], [2, 0]], "D2": [[0, 2], [2, 0]]}


def walks(edges, maxlen, rng):
    """edges: list of (source, call, target); the first source is the initial state"""
    out = collections.OrderedDict()
    for a, o, b in edges:
        out.setdefault(a, {})[tuple(o)] = b
    init = edges[0][0]
    todo = {a: set(m) for a, m in out.items()}
    res = []
    while todo.get(init) or any(todo.values()):
        cur, walk, new = init, [], 0
        while len(walk) < maxlen:
            if todo.get(cur):
                o = rng.choice(sorted(todo[cur]))
                todo[cur].discard(o)
                new += 1
                walk.append(o)
                cur = out[cur][o]
                continue
            # nearest state with something left
            seen, queue, path = {cur: None}, collections.deque([cur]), None
            while queue:
                a = queue.popleft()
                if todo.get(a):
                    path = a
                    break
                for o, b in sorted(out.get(a, {}).items()):
                    if b not in seen:
                        seen[b] = (a, o)
                        queue.append(b)
            if path is None:
                break
            steps = []
            while seen[path] is not None:
                a, o = seen[path]
                steps.append(o)
                path = a
            if walk and len(walk) + len(steps) >= maxlen and new:
                break
            for o in reversed(steps):
                walk.append(o)
                cur = out[cur][o]
        if not new:
            break
        res.append(walk)
    return res


class Tour(gen_life.G):
    def __init__(self, rng, hp, slots, **prof):
        gen_life.G.__init__(self, rng, **prof)
        for s in slots:
            c = CONF[s]
            self.new(s, hp=hp, d=c["d"], c=c["c"], cls=c["cls"], norm=c["norm"], prec=c["prec"], solver=self.pick("", "basic"))
            self.ev[-1]["batch"] = self.models[s]["batch"] = c["batch"]
            self.ev[-1]["w"] = []
            self.models[s]["wc"] = False

    def block(self, s, k):
        m = self.models[s]
        xf, tf = self.form(2, False, m["hp"]), self.form(2, "bin", m["hp"])
        return dict(X=X[k], T=T[k], xform=xf, tform=tf, xs=self.desc(X[k], 2, xf), ts=self.desc(T[k], 2, tf), istart=0, icount=-1)

    def call(self, op, s, x, y):
        m = self.models[s]
        a = bool(m["hp"] and self.chance(self.p.get("async", 0)))

        def files(e):
            if a:
                for f in ("xform", "tform"):
                    if f in e and e[f]["src"] != "h5":
                        e[f] = dict(e[f], src="h5", h5="carray")
            return e
        if op == "addn":
            f, W, b = NEURON[x]
            self.add("addn", s, f=f, n=1, given=True, W=W, b=b, malformed=False, form={"dt": self.pick("f8", "i8"), "lay": "C"})
            m["L"] += 1
        elif op in ("add", "addf"):
            self.add("add", s, **files(dict(self.block(s, x), corr="f1" if op == "addf" else "", async_=a)))
        elif op == "train":
            fl = {"": [], "c": ["C"], "wc": ["WC"], "wcx": ["WC"]}[y]
            self.add("train", s, **files(dict(self.block(s, x), flags=fl, flags_arg=[z.lower() if self.chance(.5) else z for z in fl],
                                              w=[[2, 1], 1] if y == "wcx" else [], batch=0, async_=a)))
        elif op in ("solve", "reset"):
            self.add(op, s)
        elif op == "setB":
            n = m["L"]
            self.add("setB", s, B=[[[i - j, 150, 0] for j in range(2)] for i in range(n)], malformed=False)
        elif op == "setcorr":
            n = m["L"]
            self.add("setcorr", s, HH=[[6 if i == j else 1 for j in range(n)] for i in range(n)],
                     HT=[[2 * (i + 1) - (j + 1) for j in range(2)] for i in range(n)], malformed=False, form={"lay": self.pick("C", "F")})
        elif op in ("predict", "project"):
            self.nout += 1
            b = self.block(s, x)
            self.add(op, s, **files(dict({k: b[k] for k in ("X", "xform", "xs", "istart", "icount")}, out="h5" if a else self.pick("ret", "arr", "h5"),
                                         outrows=len(X[x]), extra=0, outname="o%d" % self.nout, outlay="C", async_=a and op == "predict", outdt="", outnd=2)))
        elif op in ("error", "confusion"):
            b = self.block(s, x)
            Y = [[4, 1], [2, 3], [0, -3]][:len(X[x])]
            yf = self.form(2, False, m["hp"])
            self.add(op, s, T=b["T"], Y=Y, tform=b["tform"], yform=yf, ts=b["ts"], ys=self.desc(Y, 2, yf), istart=0, icount=-1)
        elif op == "save":
            self.add("save", s, name="s1", how=self.pick("file", "bytes"))
            self.saved["s1"] = m["L"]
        elif op == "load":
            self.add("load", s, name="s1")
            if "s1" in self.saved:
                m["L"] = self.saved["s1"]
        elif op == "solvecorr":
            self.add("solvecorr", s, corr="f1")
        else:
            raise RuntimeError(op)


def tours(seed, edges, hp, maxlen=60, pre="t", **prof):
    rng = random.Random("%s/%s" % (seed, pre))
    slots = sorted({o[1] for a, o, b in edges})
    res = []
    for i, w in enumerate(walks(edges, maxlen, rng)):
        t = Tour(rng, hp if hp is not None else rng.random() < .5, slots, h5=.15, **prof)
        for o in w:
            t.call(*o)
        res.append({"id": "%s%d" % (pre, i), "kind": "life", "events": t.ev})
    return res
