"""C24: HPELM reads and writes HDF5 files batch by batch (Batch.tla, ToolTrace.tla)."""
from harness import *
import gen_batch as G


def run(ck, s, ev, what, pre):
    scs = G.scenarios(ev)
    for x in scs:
        x["id"] = pre + x["id"]
    ck.life("ToolTrace", scs, s, modules="drv_batch", what=what, timeout=ck.scale(600, 3000))


def c24(ck):
    with Scratch() as s:
        run(ck, s, G.grid(ck.seed, ck.scale([1, 2, 4], [1, 2, 3, 4, 5, 6, 7])), "every range and batch size of small files", "g")
        run(ck, s, G.some(ck.seed, ck.scale(500, 10000), False), "random ranges and batch sizes", "s")
        run(ck, s, G.some(ck.seed, ck.scale(120, 2000), True), "asynchronous operations", "a")
        run(ck, s, G.mem(ck.seed, G.FNS, False) + G.mem(ck.seed, ["train", "add", "predict"], True), "memory taken for files of different sizes", "m")


CHECKS = {"C24": c24}
