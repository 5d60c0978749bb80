"""Result collection, evidence, replay files and known findings for check.py."""
import os, sys, json, time, re
from harness import *

OUT = os.path.join(VERIF, "out")


class Check(object):
    """What one run of a check explored and found."""

    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.quick = tier != "thorough"
        self.states = self.transitions = self.traces = 0
        self.samples = []
        self.violations = []        # (signature, replay object)
        self.ignored = 0            # clauses of other properties
        self.extra = {}
        self.t0 = time.time()
        self.known = load_known(prop)
        self.known_hit = {}

    def scale(self, quick, thorough):
        return quick if self.quick else thorough

    def add_model(self, r, name):
        self.states += r.distinct
        self.transitions += r.generated
        self.extra.setdefault("models", []).append({"name": name, "distinct_states": r.distinct, "states_generated": r.generated, "wall_s": round(r.wall, 1)})

    def violation(self, sig, replay):
        for k in self.known:
            if k.search(sig):
                self.known_hit[k.pattern] = sig
                return
        self.violations.append((sig, replay))

    def life(self, module, scenarios, scratch, accept=None, modules="", what="histories", timeout=800, **kw):
        """Runs scenarios on the real code and validates the traces with a trace specification."""
        if not scenarios:
            return []
        traces = run_driver(scenarios, scratch, modules=modules, **kw)
        self.judge(module, scenarios, traces, scratch, accept, modules, what, timeout)
        return traces

    def judge(self, module, scenarios, traces, scratch, accept=None, modules="", what="histories", timeout=800):
        bad, st, tr = validate(module, traces, scratch, timeout=timeout)
        self.states += st
        self.transitions += tr
        self.traces += len(traces)
        by = {t["id"]: t for t in traces}
        src = {s["id"]: s for s in scenarios}
        for b in sorted(bad, key=lambda b: (b[1], str(b[0]))):
            labels = b[3]
            if accept is not None:
                labels = [x for x in labels if accept(b[2], x)]
                if not labels:
                    self.ignored += 1
                    continue
            t = by[b[0]]
            s = dict(src[b[0]])
            n = b[1]
            if s["kind"] == "life":
                s["events"] = [strip(e) for e in s["events"][:n]] if n else s["events"]
            ev = t["events"][n - 1] if n else {}
            self.violation("%s event %d %s: %s" % (b[0], b[1], b[2], ", ".join(sorted(labels))),
                           {"module": module, "modules": modules, "scenario": s, "event": n, "op": b[2], "clauses": b[3],
                            "observed": ev})
        if traces:
            self.sample({"what": what, "id": traces[0]["id"], "calls": [brief(e) for e in traces[0]["events"]]})
            c = self.extra.setdefault("calls", {})
            for t in traces:
                for e in t["events"]:
                    k = e["op"] + (" refused" if e.get("exc") else "")
                    c[k] = c.get(k, 0) + 1

    def sample(self, x):
        if len(self.samples) < 6:
            self.samples.append(x)

    def finish(self):
        os.makedirs(OUT, exist_ok=True)
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces, "samples": self.samples or [{"none": True}]}
        cov.update(self.extra)
        cov["clauses_of_other_properties"] = self.ignored
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking", "coverage": cov,
              "assumptions": ASSUME, "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for k, sig in sorted(self.known_hit.items()):
            print("KNOWN-FINDING: property=%s %s" % (self.prop, sig))
        print("%s %s: %d states, %d transitions, %d traces of the real code, %d violations, %.1f s" % (
            self.prop, self.tier, self.states, self.transitions, self.traces, len(self.violations), time.time() - self.t0))
        if not self.violations:
            return 0
        for i, (sig, replay) in enumerate(self.violations[:10]):
            path = os.path.join(OUT, "%s_%d.json" % (self.prop, i))
            with open(path, "w") as f:
                json.dump(dict(replay, property=self.prop, signature=sig), f)
            print("  " + sig[:300].replace("\n", " "))
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
        return 1


ASSUME = ["TLC and the JVM evaluate the specification correctly",
          "the driver reports what the public interface of hpelm returned; numbers are compared up to rounding",
          "NumPy, SciPy, HDF5 and PyTables behave as documented"]


def strip(e):
    return {k: v for k, v in e.items() if k not in ("exc", "ret", "mut", "obs", "files", "excmsg")}


def brief(e):
    d = {}
    for k, v in e.items():
        if k in ("obs", "files", "ret", "form", "xform", "tform", "yform") or v in ("", None, [], {}, False):
            continue
        s = json.dumps(v)
        d[k] = v if len(s) < 120 else s[:110] + "..."
    return d


def load_known(prop):
    res = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\w+) signature=/(.*?)/(?: |$)", line)
            if m and m.group(1) == prop:
                res.append(re.compile(m.group(2)))
    return res


def replay(path):
    r = json.load(open(path))
    if "scenario" not in r:
        print(json.dumps(r, indent=1)[:5000])
        return 0
    with Scratch() as s:
        tr = run_driver([r["scenario"]], s, modules=r.get("modules", ""))
        if r["module"] == "AsyncTrace":
            import p_async
            tr = p_async.flows(tr)
        bad, st, n = validate(r["module"], tr, s)
    for b in bad:
        print("  event %d %s: %s" % (b[1], b[2], ", ".join(b[3])))
        print("  " + json.dumps(brief(tr[0]["events"][b[1] - 1]))[:2000])
    if bad:
        print("VIOLATION property=%s replay=%s" % (r["property"], path))
        return 1
    print("not reproduced")
    return 0
