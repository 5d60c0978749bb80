"""C11: asynchronous calls (Async.tla, AsyncSched.tla, AsyncTrace.tla; results by ElmTrace.tla)."""
import random
from harness import *
import gen_life
import p_life


def flows(traces):
    return [{"id": t["id"], "events": t["flow"], "xflow": t["xflow"], "wflow": t["wflow"]} for t in traces]


def model(ck, s, consts):
    cfg = os.path.join(s, "Async_m.cfg")
    with open(cfg, "w") as f:
        f.write("CONSTANTS\n" + "".join("  %s = %s\n" % x for x in consts.items()) +
                "SPECIFICATION Spec\nINVARIANTS InOrderOnce Complete RaisedForAReason NothingLeft NoDeadlock Bounded\nPROPERTY Termination\nCHECK_DEADLOCK FALSE\n")
    r = run_tlc("Async", cfg=cfg, scratch=s)
    if not r.ok:
        raise MachineryError("the model Async.tla does not hold\n" + tail(r.text))
    ck.add_model(r, "Async.tla " + json.dumps(consts))


def schedules(ck, s, mode, nb, faults=0):
    cfg = os.path.join(s, "AsyncSched_m.cfg")
    with open(cfg, "w") as f:
        f.write('CONSTANTS\n  NB = %d\n  Mode = "%s"\n  Cap = 1\n  Faults = %d\nSPECIFICATION SSpec\nVIEW View\nCHECK_DEADLOCK FALSE\n' % (nb, mode, faults))
    r = run_tlc("AsyncSched", cfg=cfg, scratch=s)
    if not r.ok:
        raise MachineryError("AsyncSched failed\n" + tail(r.text))
    ck.add_model(r, "AsyncSched %s, %d batches, %d faults" % (mode, nb, faults))
    return [json.loads(x) for x in sorted({p[6:] for p in r.prints if p.startswith("SCHED ")})]


PROF = dict(cls=["", "", "c", "wc", "ml"], range=.6, hp=1, c=[1, 2, 2, 3, 6], d=[1, 2, 2, 9])


def start(rng):
    g = gen_life.G(rng, **PROF)
    g.new("a", hp=True)
    g.addn("a")
    if g.chance(.3):
        g.addn("a")
    return g


def setbatch(g, b):
    g.models["a"]["batch"] = b
    g.add("setbatch", "a", batch=b)


def fixed_range(g, nb, b):
    """(N, range) so that nb batches of b rows are processed"""
    n = (nb - 1) * b + g.r.randint(1, b)
    if g.chance(.5):
        return n, (0, -1)
    s, k = g.r.randint(0, 3), g.r.randint(0, 3)
    return s + n + k, (s, n if k or g.chance(.5) else -1)


def one_call(g, mode, nb, b=None, corr=None):
    b = b or g.pick(1, 1, 2, 3)
    N, rng = fixed_range(g, nb, b)
    m = g.models["a"]
    if mode == "add":
        corr = ("k1" if g.chance(.3) else "") if corr is None else corr
        if m["cls"] == "wc" and not m["wc"]:
            N, rng = max(N, m["c"] + 1), None
        setbatch(g, b)
        if corr or g.chance(.5):
            g.add_data("a", N=N, rng=rng, corr=corr, async_=True)
        else:
            g.train("a", N=N, cls=m["cls"], batch=0, rng=rng, async_=True)
    else:
        g.train("a", async_=False)
        setbatch(g, b)
        g.query("a", "predict", N=N, rng=rng, async_=True)


def faulted(g, mode, nb):
    """an asynchronous call to fail, and what is done after it"""
    m = g.models["a"]
    corr = ""
    if mode == "add":
        if g.chance(.5):
            g.train("a", async_=False)
            if g.chance(.3):
                g.add("reset", "a")
        if g.chance(.4) and (m["cls"] != "wc" or m["wc"]):
            corr = "k1"
            g.corr["k1"] = (m["L"], m["c"])
            g.add_data("a", corr=corr, async_=False)
    one_call(g, mode, nb, corr=corr)
    if mode == "predict":
        g.query("a", "predict", async_=g.chance(.7))
    elif g.chance(.5) or m["cls"] == "wc":
        g.train("a", async_=g.chance(.5))
    else:
        g.add("reset", "a")
        g.add_data("a", corr=corr, async_=g.chance(.5))
        g.add("solve", "a")
    g.query("a", "predict", async_=False)
    return g.ev


def c11(ck):
    rng = random.Random(ck.seed * 7919 + 11)
    with Scratch() as s:
        for mode in ("add", "predict"):
            for nb in ck.scale([4], [4, 6, 9]):
                model(ck, s, {"NB": nb, "Mode": '"%s"' % mode, "Cap": 1, "Faults": 0})
                model(ck, s, {"NB": nb, "Mode": '"%s"' % mode, "Cap": 1, "Faults": 2})
        scs = []
        for mode, lim in (("add", ck.scale(110, 10**6)), ("predict", ck.scale(90, 10**6))):
            hs = schedules(ck, s, mode, 3)
            rng.shuffle(hs)
            for i, h in enumerate(hs[:lim]):
                g = start(rng)
                one_call(g, mode, 3)
                scs.append({"id": "%s%d" % (mode[0], i), "kind": "async", "events": g.ev, "match": [x for x in h if x[1] != "start"]})
        for mode, lim in (("add", ck.scale(40, 10**6)), ("predict", ck.scale(40, 10**6))):
            hs = schedules(ck, s, mode, 3, 1)
            rng.shuffle(hs)
            for i, h in enumerate(hs[:lim]):
                scs.append({"id": "f%s%d" % (mode[0], i), "kind": "async", "events": faulted(start(rng), mode, 3), "match": [x for x in h if x[1] != "start"]})
        prios = [["M", "P1", "P2"], ["P1", "M", "P2"], ["P2", "P1", "M"], ["P1", "P2", "M"], ["M", "P2", "P1"], ["P2", "M", "P1"]]
        for i in range(ck.scale(36, 120)):
            g = start(rng)
            one_call(g, ("add", "predict")[i % 2], g.r.randint(6, 16))
            scs.append({"id": "p%d" % i, "kind": "async", "events": g.ev, "prio": prios[(i // 2) % 6]})
        for i in range(ck.scale(120, 2500)):
            g = start(rng)
            for _ in range(g.r.randint(1, 3)):
                x = g.r.random()
                if x < .5:
                    one_call(g, g.pick("add", "predict"), g.r.randint(1, 6))
                elif x < .7:
                    m = g.models["a"]
                    if m["cls"] != "wc" or m["wc"]:
                        N = g.r.randint(1, 5)           # nothing selected
                        g.add_data("a", N=N, rng=g.pick((N, -1), (N + 2, -1), (0, 0), (N - 1, 0), (N + 1, 2)), async_=True)
                        g.add_data("a", async_=False)
                elif x < .85:
                    g.train("a", async_=True)
                    g.query("a", "predict", async_=True)
                else:
                    g.add_data("a", async_=True)
            scs.append({"id": "r%d" % i, "kind": "async", "events": g.ev, "rseed": g.r.randint(0, 2**31 - 1), "rp": g.pick(.1, .3, .6)})
        scs = [x for x in scs if any(e.get("async_") for e in x["events"])]
        traces = run_driver(scs, s, modules="drv_async")
        ck.judge("ElmTrace", scs, traces, s, ACCEPT, "drv_async", "histories with asynchronous calls")
        ck.judge("AsyncTrace", scs, flows(traces), s, None, "drv_async", "operations of the processes of asynchronous calls")


ACCEPT = p_life.clauses(p_life.ACC | p_life.SOL | {"rows", "Y", "precision", "accepted", "mutated"},
                        raised=("add", "train", "predict"))
CHECKS = {"C11": c11}
