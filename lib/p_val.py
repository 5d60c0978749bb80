"""C18: errors of all numbers of neurons (Val.tla in ElmTrace.tla)."""
from harness import *
import gen_val
from p_life import D, clauses, ACC, SOL

PROF = D(batch=[1, 2, 3, 4, 7, 1000], h5=.5, **{"async": .05})
LAB = clauses(ACC | SOL | {"sizes", "errs", "confs", "neurons", "accepted", "cls", "mutated", "norm", "precision", "filemissing", "batch", "dims"}, raised=("valcorr",))
AFTER = clauses({"Y", "H", "rows"}, raised=("predict", "project", "train"))


def c18(ck):
    with Scratch() as s:
        ck.life("ElmTrace", [gen_val.history(ck.seed, "v%d" % i, PROF) for i in range(ck.scale(700, 8000))], s,
                lambda op, x: LAB(op, x) if op == "valcorr" else AFTER(op, x), what="validation_corr in histories", timeout=ck.scale(600, 3000))


CHECKS = {"C18": c18}
