"""C12, C13: model structure selection (Mss.tla, MyOpt.tla, ElmTrace.tla)."""
from harness import *
import gen_mss
from p_life import D, start_one, setup, clauses, ACC, SOL, ops

PROF = D(ops=dict(new=.3, addn=1, addn_default=.4, add=.4, train=.6, reset=.2, solve=.4, predict=1, project=.5, error=.3,
                  confusion=.1, save=.4, load=.4, mss=.35),
         hp=.12, maxL=7, dup=.2, norm=[1, 1, 2, 3, -1], start=[start_one(hp=False)])
LAB = {"notselection", "order", "empty", "kmax"}
A12 = clauses(LAB | SOL | ACC | {"norm", "neurons", "accepted", "cls", "Y", "self"}, raised=("mss",))


def AFTER12(op, x):
    if op == "mss" or x in ("neurons",):
        return A12(op, x)
    return op in ("predict", "project") and (x in ("Y", "H", "rows") or x.startswith("raised"))


A13 = clauses({"criterion", "cverr"}, raised=("mss",))


def c12(ck):
    n = ck.scale(600, 6000)
    with Scratch() as s:
        ck.life("ElmTrace", [gen_mss.history(ck.seed, ck.scale(9, 12), PROF, "m%d" % i) for i in range(n)], s,
                AFTER12,
                what="histories with structure selection", timeout=ck.scale(600, 3000))
        wp = dict(PROF, maxL=30, n=(4, 15), d=[3, 9, 17], c=[1, 2, 5], dup=0, funcs=["lin", "lin", "tanh", "sigm", "absolute", "sign"])
        ck.life("ElmTrace", [gen_mss.history(ck.seed, 7, wp, "w%d" % i) for i in range(ck.scale(50, 500))], s,
                AFTER12,
                what="wide models with structure selection", timeout=ck.scale(600, 3000))
        ck.life("ElmTrace", [gen_mss.ortho_history(ck.seed, "p%d" % i) for i in range(ck.scale(100, 1000))], s,
                lambda op, x: A12(op, x), what="orthogonal hidden layers", timeout=ck.scale(600, 3000))


def c13(ck):
    n = ck.scale(1000, 10000)
    with Scratch() as s:
        r = run_tlc("MyOptMC", scratch=s)
        if not r.ok:
            raise MachineryError("MyOptMC: " + tail(r.text))
        ck.add_model(r, "MyOptMC: interval search over every order of the criterion")
        ck.life("ElmTrace", [gen_mss.ortho_history(ck.seed, "o%d" % i) for i in range(n)], s, A13,
                what="structure selection on orthogonal hidden layers", timeout=ck.scale(600, 3000))
        ck.life("ElmTrace", [gen_mss.small_history(ck.seed, "s%d" % i) for i in range(ck.scale(500, 8000))], s, A13,
                what="structure selection on small hidden layers of any kind", timeout=ck.scale(600, 3000))


CHECKS = {"C12": c12, "C13": c13}
