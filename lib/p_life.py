"""Properties decided on histories of model objects (Elm.tla, ElmTrace.tla, ElmMC.tla)."""
import random
from harness import *
import gen_life, gen_tour

D = dict


def setup(g, **kw):
    s = g.new(**kw)
    g.addn(s)
    if g.chance(.5):
        g.addn(s)
    return s


def start_one(**kw):
    return lambda g: setup(g, slot="a", **kw)


def start_twins(**kw):
    """two models with the same neurons, one loaded from the other"""
    def f(g):
        setup(g, slot="a", **kw)
        g.save("a", "s1")
        g.new("b", **dict(kw, d=g.models["a"]["d"], c=g.models["a"]["c"]))
        g.load("b", "s1")
    return f


def big(g):
    """more rows than the default batch size"""
    r = g.r
    hp = g.chance(.6)
    s = g.new("a", d=1, c=g.pick(1, 2) if "" in g.p.get("cls", [""]) else 2, hp=hp, norm=1)
    m = g.models[s]
    g.addn(s, n=2)
    N = 60 * r.randint(17, 38)
    if g.chance(.5):
        g.train(s, N=N, async_=False)
    else:
        m["batch"] = g.pick(999, 1000, 1024)
        g.add("setbatch", s, batch=m["batch"])
        g.add_data(s, N=N, async_=False)
        g.add("solve", s)
        m["B"] = True
    N = 60 * r.randint(17, 38)
    k = g.p.get("bigquery", "predict")
    if k in ("predict", "project"):
        g.query(s, k, N=N, async_=False)
    else:
        g.evaluate(s, k, N=N)


def wide(g):
    """more inputs, outputs, neurons and rows than in other histories"""
    s = g.new("a", d=g.r.randint(6, 24), c=g.r.choice([1, 5, 9, 10, 12]), prec=64)
    for _ in range(g.pick(1, 2)):
        g.addn(s)


# operation weights, core operations and accepted clauses of every property
BASE = D(new=.4, addn=1, add=1, train=1, reset=.3, solve=.6, predict=.6, project=.3, error=.2, confusion=.2, save=.3, load=.3,
         setB=.2, setcorr=.2, setbatch=.4, malformed=.3, addcorr=.3, solvecorr=.2)
DATA = ("add", "train")


def ops(**kw):
    d = dict(BASE)
    d.update(kw)
    return {k: v for k, v in d.items() if v}


ACC = {"HH", "HT", "HHshape", "HTshape", "accstale", "accmissing", "wc", "file HH", "file HT", "file HHshape", "file HTshape"}
SOL = {"Bstale", "Bmissing", "Bshape", "Bresidual", "Bchanged"}
CRASH = {"HANG", "DIED"}


def clauses(labels, raised=(), every=(), refused=True):
    """labels that break the property; 'raised' operations must not raise, any clause counts for 'every' operations"""
    labels = set(labels)

    def f(op, x):
        if x in CRASH or x.startswith("unevaluable"):
            return True
        if op in every or op == "?":
            return True
        if x.startswith("raised"):
            return op in raised
        if x.startswith("failed "):
            return x[7:] in labels | {"self"}
        if x.startswith("refused "):
            return refused and x[8:] in labels
        if x.startswith("self "):
            return x[5:] in labels or "self" in labels
        return x in labels
    return f


P = {
    "C01": (D(ops=ops(add=6, train=3, reset=1, addn=.7, addcorr=1.5, error=0, confusion=0, predict=.3, project=.2), range=.6, start=[start_one()], slots=["a", "b"], **{"async": .06}),
            clauses(ACC | {"self", "accepted", "norm"}, raised=("add", "train", "reset", "addn"))),
    "C02": (D(ops=ops(train=4, add=2, solve=4, predict=3, setcorr=2, setB=.7, solvecorr=1, addcorr=1, error=0, confusion=0), norm=[0, 0, 1, 2, -1, -1], dup=.5, maxL=6, start=[start_one()]),
            clauses(SOL | {"Y", "rows", "norm"}, raised=("train", "solve", "solvecorr", "predict", "setcorr", "setB"))),
    "C03": (D(ops=ops(addn=2, addn_default=1, train=3, add=2, reset=2, solve=2, predict=2, malformed=2, load=.5, setB=.5), cls=["", "c", "wc", "ml"], start=[start_one()]),
            clauses(ACC | SOL | {"neurons", "accepted", "cls", "self", "Y"}, raised=("train", "solve", "predict", "reset", "add", "addn"))),
    "C04": (D(ops=D(new=.5, addn=3, addn_default=1.2, project=5, malformed=.4, train=.4, predict=.2, save=.2, load=.2), smooth=True, maxL=9, d=[1, 2, 3, 4], start=[start_one()], prec=[64, 64, 32]),
            clauses({"neurons", "H", "rbfwidth", "rows", "accepted", "self"}, raised=("addn", "project"))),
    "C05": (D(ops=ops(predict=6, project=6, train=1, add=.2, malformed=.2, setB=1.5, addcorr=0, solvecorr=0, error=.3, confusion=0), hp=.8, range=.7, start=[start_one()], **{"async": .12}),
            clauses({"rows", "Y", "H", "rest", "self"}, raised=("predict", "project"), refused=False)),
    "C06": (D(ops=D(new=1, error=8, addn=.5, train=1, setbatch=1, save=.2, load=.2, predict=.3), hp=.6, range=.6, start=[start_one()], cls=["", "c", "wc", "wc", "ml"], c=[1, 2, 3, 4]),
            clauses({"error", "wc", "cls", "self"}, raised=("error",))),
    "C07": (D(ops=D(new=1, confusion=8, addn=.5, train=1, setbatch=1, save=.2, load=.2), hp=.6, start=[start_one()], cls=["c", "wc", "ml", ""], c=[2, 2, 3, 4, 1]),
            clauses({"confusion", "confshape", "accepted", "cls", "self"}, raised=("confusion",))),
    "C08": (D(ops=ops(save=3, load=3, new=1, addn_default=.7, train=2, predict=1.5, project=1, setB=.5, error=.7), start=[start_one(), lambda g: setup(g, slot="b")], slots=["a", "b"]),
            clauses(ACC | SOL | {"neurons", "dims", "cls", "norm", "batch", "solver", "precision", "other", "Y", "H", "error", "self"}, raised=("save", "load", "predict", "train", "add", "project"), every=("save", "load"))),
    "C15": (D(ops=ops(add=4, train=4, solve=2, save=.4, load=.4, error=1, confusion=.2, addcorr=.7), cls=["wc", "wc", "wc", "c"], c=[2, 3, 4], range=.5, start=[start_one(cls="wc")], **{"async": .2}),
            clauses(ACC | SOL | {"error", "self"}, raised=("add", "train", "solve"))),
    "C19": (D(ops=ops(malformed=6, train=2, add=2, predict=2, project=1, error=1, confusion=1), start=[start_one()]),
            clauses(ACC | SOL | {"accepted", "neurons", "Y", "H", "rows", "error", "confusion", "cls", "precision", "self"}, raised=("add", "train", "predict", "project", "error", "confusion", "new"))),
    "C20": (D(ops=ops(add=2, train=2, addn=1.5, predict=3, project=3, error=1, confusion=1, save=1, load=1.5, setB=1, setcorr=1, solvecorr=.6, addcorr=1.2, malformed=1), start=[start_twins()], slots=["a", "b"]),
            clauses(ACC | SOL | {"mutated", "other", "neurons", "self", "bits", "Y", "H"})),
    "C21": (D(ops=ops(addcorr=6, solvecorr=3, add=1, train=.5, setbatch=1, new=.1, addn=.15, load=.7, save=.2, error=0, confusion=0, setcorr=0, setB=.2, malformed=.3), hp=.95, start=[start_twins(hp=True)], range=.4, **{"async": .1}),
            clauses(ACC | SOL | {"filenew", "filemissing", "mutated", "accepted", "precision", "norm"}, raised=("add", "solvecorr"))),
    "C22": (D(ops=ops(save=1, load=1.5, new=1, predict=2, project=2, addcorr=1, solvecorr=1, setcorr=.7, setB=.7, addn_default=.7), prec=[32, 64], norm=[-1, -1, 1, 2], start=[start_one()], **{"async": .12}),
            clauses({"precision", "norm"}, raised=())),
}

N_QUICK = D(C01=420, C02=420, C03=420, C04=420, C05=420, C06=420, C07=420, C08=420, C15=380, C19=450, C20=400, C21=380, C22=400)
BIG = D(C01=(6, "predict"), C05=(8, "predict"), C06=(8, "error"), C07=(8, "confusion"), C02=(4, "predict"), C15=(6, "error"))
BIG_CLS = D(C07=["c", "wc", "ml"], C15=["wc"])


# state graphs of ElmMC explored and replayed: calls, neurons, blocks of data (quick; thorough), class of models
TOURS = D(C01=("OpsLife", 2, 1, "OpsLife3", 3, 2, None), C03=("OpsLife", 2, 1, "OpsLife3", 3, 2, None),
          C08=("OpsSave", 1, 1, "OpsSave2", 2, 1, None), C20=("OpsSave", 1, 1, "OpsSave2", 2, 1, None), C21=("OpsFile", 1, 2, "OpsFile", 2, 2, True))


def explore(ck, s, ops, maxn, maxfed):
    cfg = os.path.join(s, "ElmMC_%s_%d_%d.cfg" % (ops, maxn, maxfed))
    with open(cfg, "w") as f:
        f.write(open(os.path.join(SPEC, "ElmMC.cfg")).read().replace("Ops1", ops).replace("MaxN = 2", "MaxN = %d" % maxn)
                .replace("MaxFed = 1", "MaxFed = %d" % maxfed))
    r = run_tlc("ElmMCx", cfg=cfg, scratch=s)
    if not r.ok:
        raise MachineryError("ElmMC: " + tail(r.text))
    ck.add_model(r, "ElmMC.tla, %s, %d neurons, %d blocks" % (ops, maxn, maxfed))
    ed = [json.loads(p[5:]) for p in r.prints if p.startswith("EDGE ")]
    init = [e for e in ed if e[0] == ed[0][0]]      # printed in any order, but the first ones leave the initial state
    return init + sorted(e for e in ed if e[0] != ed[0][0])


def tour(ck, s, accept):
    q = TOURS[ck.prop]
    ed = explore(ck, s, *(q[:3] if ck.quick else q[3:6]))
    scs = gen_tour.tours(ck.seed, ed, q[6], maxlen=40, **({"async": .02} if ck.prop == "C21" else {}))
    ck.extra["transitions_of_the_model_replayed"] = len(ed)
    ck.life("ElmTrace", scs, s, accept, what="every transition of the model's state graph on real objects", timeout=ck.scale(600, 3000))


def run(ck):
    prof, accept = P[ck.prop]
    n = N_QUICK[ck.prop] * ck.scale(1, 12)
    ln = ck.scale(14, 20)
    with Scratch() as s:
        scs = [gen_life.history(ck.seed, ln, prof, "h%d" % i) for i in range(n)]
        ck.life("ElmTrace", scs, s, accept, what="random histories of up to two models", timeout=ck.scale(600, 3000))
        if ck.prop in TOURS:
            tour(ck, s, accept)
        wp = dict(prof, start=[wide], medium=.6, n=(6, 24), maxL=40, prec=[64], d=[6, 17, 33], c=[1, 5, 11], slots=["a"],
                  funcs=["lin", "lin", "tanh", "sigm", "absolute", "sign"], opaque=False, dup=0, norm=[-1, 1, 2])
        if ck.prop == "C04":
            wp["funcs"] = gen_life.SMOOTH + ("lin",)
        else:
            wp["smooth"] = False
        scs = [gen_life.history(ck.seed, 7, wp, "w%d" % i) for i in range(ck.scale(40, 400))]
        ck.life("ElmTrace", scs, s, accept, what="wide models", timeout=ck.scale(600, 3000))
        if ck.prop in BIG:
            k, q = BIG[ck.prop]
            bp = dict(prof, start=[big], ops=D(setbatch=1), bigquery=q, forms=False, d=[1])
            if ck.prop in BIG_CLS:
                bp["cls"] = BIG_CLS[ck.prop]
            bs = [gen_life.history(ck.seed, 5, bp, "b%d" % i) for i in range(k * ck.scale(1, 5))]
            ck.life("ElmTrace", bs, s, accept, what="more rows than the default batch", timeout=ck.scale(600, 3000))


CHECKS = {p: run for p in P}
