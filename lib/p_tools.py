"""C14, C16, C17, C23: functions on matrices and files (Mrsr.tla, H5.tla, H5MC.tla, Rbf.tla, ToolTrace.tla)."""
from harness import *
import gen_tools as G


def run(ck, s, scs, what):
    ck.life("ToolTrace", scs, s, modules="drv_tools", what=what, timeout=ck.scale(600, 3000))


def c14(ck):
    with Scratch() as s:
        run(ck, s, [G.ranks(ck.seed, "r%d" % i) for i in range(ck.scale(1500, 20000))], "rankings by mrsr and mrsr2")


def c16(ck):
    with Scratch() as s:
        run(ck, s, [G.files(ck.seed, "f%d" % i, 5) for i in range(ck.scale(1000, 12000))], "files made by make_hdf5")
        run(ck, s, [G.long_files(ck.seed, "l%d" % i) for i in range(ck.scale(6, 60))], "long files made by make_hdf5")


def words(ck, s, names, n):
    cfg = os.path.join(s, "H5MC_%d_%d.cfg" % (len(names), n))
    with open(cfg, "w") as f:
        f.write(open(os.path.join(SPEC, "H5MC.cfg")).read().replace('{"a"}', "{%s}" % ", ".join('"%s"' % x for x in names))
                .replace("MaxLen = 4", "MaxLen = %d" % n))
    r = run_tlc("H5MC", cfg=cfg, scratch=s)
    if not r.ok:
        raise MachineryError("H5MC: " + tail(r.text))
    ck.add_model(r, "H5MC.tla, every history of %d calls on %d files" % (n, len(names)))
    return sorted(json.loads(p[5:]) for p in r.prints if p.startswith("WORD "))


def c17(ck):
    with Scratch() as s:
        for names, n in (("a", ck.scale(5, 6)), ("ab", ck.scale(4, 5))):
            w = words(ck, s, names, n)
            run(ck, s, [G.normals(ck.seed, "w%d_%d" % (len(names), i), 0, x) for i, x in enumerate(w)], "every history of the model on real files")
        run(ck, s, [G.normals(ck.seed, "n%d" % i, 8) for i in range(ck.scale(400, 6000))], "random histories")


def c23(ck):
    with Scratch() as s:
        run(ck, s, [G.rbfs(ck.seed, "b%d" % i) for i in range(ck.scale(1000, 15000))], "parameters by rbf_param")


CHECKS = {"C14": c14, "C16": c16, "C17": c17, "C23": c23}
