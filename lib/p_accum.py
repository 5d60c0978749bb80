"""C09, C10: processes that accumulate into shared files (Accum.tla, AccumSched.tla, AccumTrace.tla)."""
import random
from harness import *

VAL = [1, 3, 8, 21, 13, 34, 5, 2, 6]


def base(rng, sid, nproc, ncall, pre=0, probe=True, fork=False):
    d, c = rng.choice([1, 2]), rng.choice([1, 2])
    cls = rng.choice(["", "", "", "wc"]) if c == 2 else ""
    L = rng.choice([2, 3])
    W = [[0] * d] + [[rng.choice([-1, 1]) if i == j % d else rng.choice([0, 1]) for i in range(d)] for j in range(L - 1)]
    b = [1024] + [512 * rng.randint(-2, 2) for _ in range(L - 1)]
    vals = VAL[:]
    rng.shuffle(vals)
    k = [0]

    def data():
        v = vals[k[0] % len(vals)]
        k[0] += 1
        n = rng.choice([1, 1, 2, 3])
        # rows from an array, from an own file, or a range of a file with the rows of all calls
        src = rng.choice(["arr", "arr", "h5", "rng"])
        return {"X": [[2 * v * (i == 0) + rng.randint(0, 2) for i in range(d)] for _ in range(n)],
                "T": [[2 * v + rng.randint(0, 1) for _ in range(c)] if cls == "" else onehot() for _ in range(n)],
                "src": src, "async_": fork and src != "arr" and rng.random() < .3}

    def onehot():
        j = rng.randrange(c)
        return [2 * (i == j) for i in range(c)]
    sc = {"id": sid, "kind": "accum", "d": d, "c": c, "norm": rng.choice([0, 4, 8, 8, 1, 2, 6, -1]), "W": W, "b": b,
          "pre": [data() for _ in range(pre)], "calls": [[data() for _ in range(ncall)] for _ in range(nproc)], "events": [],
          "cls": cls, "w": [[rng.randint(1, 3) for _ in range(c)], rng.choice([1, 2])] if cls else [], "prec": rng.choice([64, 64, 64, 32]),
          "batch": rng.choice([1, 2, 1000]), "solver": rng.choice(["", "", "basic"])}
    if probe:
        sc["probe"] = data()
    return sc


def schedules(ck, s, **consts):
    """schedules of every edge of the state graph of the model"""
    cfg = os.path.join(s, "sched%d.cfg" % len(os.listdir(s)))
    c = dict(NProc=2, NCall=1, MaxKill=0, PreExist="FALSE", Locked="TRUE")
    c.update(consts)
    with open(cfg, "w") as f:
        f.write("CONSTANTS\n" + "".join("  %s = %s\n" % x for x in c.items()) + "SPECIFICATION SSpec\nVIEW View\nCHECK_DEADLOCK FALSE\n")
    r = run_tlc("AccumSched", cfg=cfg, scratch=s)
    if not r.ok:
        raise MachineryError("AccumSched failed\n" + tail(r.text))
    ck.add_model(r, "AccumSched " + json.dumps(consts))
    return [json.loads(p[6:]) for p in r.prints if p.startswith("SCHED ")]


OPS = {"lock": ("lock", ".h5.lock"), "unlock": ("unlock", ".h5.lock"), "isfile": ("isfile", ".h5"), "mktmp": ("close", ".h5.tmp"),
       "rename": ("rename", ".h5"), "open": ("open", ".h5"), "close": ("close", ".h5"), "copy": ("copy", ".h5.tmp"),
       "topen": ("open", ".h5.tmp"), "read": ("read", ".h5.tmp"), "write": ("write", ".h5.tmp"), "flush": ("flush", ".h5.tmp"),
       "tclose": ("close", ".h5.tmp"), "kill": ("kill", "")}


def matches(h):
    return [[p, OPS[op][0], f + OPS[op][1]] for p, op, f in h]


def exhaustive(ck, s, mk):
    with open(os.path.join(s, "Accum.cfg"), "w") as f:
        f.write(open(os.path.join(SPEC, "Accum.cfg")).read().replace("MaxKill = 1", "MaxKill = %d" % mk))
    r = run_tlc("Accum", cfg=os.path.join(s, "Accum.cfg"), scratch=s)
    if not r.ok:
        raise MachineryError("the model Accum.tla does not hold\n" + tail(r.text))
    ck.add_model(r, "Accum.tla, 2 processes, 2 calls each, %d killed" % mk)
    if not ck.quick:
        for c in (dict(NProc=3, NCall=1, MaxKill=2 if mk else 0, PreExist="FALSE"), dict(NProc=3, NCall=1, MaxKill=1 if mk else 0, PreExist="TRUE"),
                  dict(NProc=2, NCall=3, MaxKill=mk, PreExist="FALSE")):
            cfg = os.path.join(s, "Accum_b.cfg")
            with open(cfg, "w") as f:
                f.write("CONSTANTS\n" + "".join("  %s = %s\n" % x for x in c.items()) + "  Locked = TRUE\nSPECIFICATION Spec\n"
                        "INVARIANTS ExactlyOnce NormOnce MutualExclusion NoDeadlock LocksReleased TornOnlyInWindow\nPROPERTY Termination\nCHECK_DEADLOCK FALSE\n")
            r = run_tlc("Accum", cfg=cfg, scratch=s, timeout=1500, heap="12g")
            if not r.ok:
                raise MachineryError("the model Accum.tla does not hold\n" + tail(r.text))
            ck.add_model(r, "Accum.tla " + json.dumps(c))


def c09(ck):
    rng = random.Random(ck.seed * 7919 + 9)
    with Scratch() as s:
        exhaustive(ck, s, 0)
        scs = []
        hs = schedules(ck, s)
        if ck.quick:
            rng.shuffle(hs)
            hs = hs[:420]
        for i, h in enumerate(hs):
            scs.append(dict(base(rng, "m%d" % i, 2, 1, probe=False), match=matches(h)))
        hs = schedules(ck, s, PreExist="TRUE")
        rng.shuffle(hs)
        for i, h in enumerate(hs[:ck.scale(120, 10**6)]):
            scs.append(dict(base(rng, "e%d" % i, 2, 1, pre=1, probe=False), match=matches(h)))
        if not ck.quick:
            hs = schedules(ck, s, NCall=2)
            rng.shuffle(hs)
            for i, h in enumerate(hs[:3000]):
                scs.append(dict(base(rng, "M%d" % i, 2, 2, probe=False), match=matches(h)))
        # one and two preemptions of the real code at every gate
        for k in range(2, 64):
            scs.append(dict(base(rng, "s%d" % k, 2, 1, probe=False), switch={str(k): 1}))
        for i in range(ck.scale(80, 1500)):
            k = rng.randint(2, 40)
            scs.append(dict(base(rng, "t%d" % i, 2, rng.choice([1, 2]), pre=rng.choice([0, 1]), probe=False, fork=True),
                            switch={str(k): 1, str(k + rng.randint(1, 30)): 0}))
        for i in range(ck.scale(90, 1500)):
            n = rng.choice([2, 3, 3, 4])
            scs.append(dict(base(rng, "r%d" % i, n, rng.choice([1, 1, 2]), pre=rng.choice([0, 0, 1]), probe=False, fork=True),
                            rseed=rng.randint(0, 2**31 - 1), rp=rng.choice([.1, .3, .6]), dup=rng.choice([1, 1, 1, 3, 40, 110])))
        ck.life("AccumTrace", scs, s, None, modules="drv_accum", what="schedules of accumulating processes", timeout=ck.scale(600, 3000))


def c10(ck):
    rng = random.Random(ck.seed * 7919 + 10)
    with Scratch() as s:
        exhaustive(ck, s, 1)
        scs = []
        hs = [h for h in schedules(ck, s, MaxKill=1) if any(x[1] == "kill" for x in h)]
        rng.shuffle(hs)
        for i, h in enumerate(hs[:ck.scale(260, 10**6)]):
            scs.append(dict(base(rng, "m%d" % i, 2, 1), match=matches(h)))
        for pre in (0, 1):
            # a fault of the first process at every gate, alone
            for g in range(1, 68 if not pre else 58):
                for kind in ("kill", "fail"):
                    scs.append(dict(base(rng, "f%d%s%d" % (pre, kind[0], g), 2, 1, pre=pre), faults=[{"p": 0, "gate": g, "kind": kind}]))
        for i in range(ck.scale(150, 3000)):
            n = rng.choice([2, 2, 3, 4])
            nf = rng.choice([1, 1, 2]) if n > 2 else 1
            ps = rng.sample(range(n), nf)
            nc = rng.choice([1, 1, 2])
            sc = dict(base(rng, "r%d" % i, n, nc, pre=rng.choice([0, 0, 1])),
                      faults=[{"p": p, "gate": rng.randint(1, 64 if nc == 1 else 116), "kind": rng.choice(["kill", "fail"])} for p in ps])
            if rng.random() < .5:
                sc.update(rseed=rng.randint(0, 2**31 - 1), rp=rng.choice([.1, .3, .6]))
            else:
                k = rng.randint(2, 30)
                sc.update(switch={str(k): 1, str(k + rng.randint(1, 30)): 0})
            scs.append(sc)
        # matrices larger than the buffers of HDF5, that reach the disk in several pieces
        for i, g in enumerate(range(36, 50, 2) if ck.quick else range(1, 68)):
            sc = base(rng, "big%d" % g, 2, 1, pre=1)
            scs.append(dict(sc, W=sc["W"][:2], b=sc["b"][:2], dup=800, norm=4, faults=[{"p": 0, "gate": g - 9 if g > 9 else g, "kind": "kill"}]))
        ck.life("AccumTrace", scs, s, None, modules="drv_accum", what="schedules with kills and failures", timeout=ck.scale(600, 3000))


CHECKS = {"C09": c09, "C10": c10}
