"""C27: a failing dependency never silently changes a result, and fails in an orderly way."""
import json
import logging
import warnings

from .. import canon, common, faults, sched, world
from ..common import Check, Result, rnd

# symptoms of a failure path nobody looked at, as opposed to a failure that is reported
INTERNAL = ("AttributeError", "TypeError", "KeyError", "IndexError", "NameError", "UnboundLocalError", "AssertionError",
            "RecursionError", "StopIteration")


class Heard(logging.Handler):
    """Warnings logged while a call ran."""

    def __init__(self):
        super().__init__(level=logging.WARNING)
        self.lines = []

    def emit(self, record):
        self.lines.append(record.getMessage())


def named(tree, name):
    """Whether part of an outcome is the pair (name, value)."""
    return len(tree) == 2 and isinstance(tree[0], str) and tree[0] == name


def overlays_absent(clean, got):
    """The clean outcome without the optional frontier overlays that the other outcome lacks."""
    if isinstance(clean, (list, tuple)) and isinstance(got, (list, tuple)):
        if len(clean) == 2 and len(got) == 2 and named(clean, "alternate_risks") and named(got, "alternate_risks"):
            a, b = clean[1], got[1]
            if isinstance(a, tuple) and isinstance(b, tuple) and named(a, "dict") and named(b, "dict"):
                have = {k for k, _ in b[1]}
                return (clean[0], ("dict", [(k, v) for k, v in a[1] if k in have]))
            return clean
        if len(clean) == len(got):
            return type(clean)(overlays_absent(a, b) for a, b in zip(clean, got))
    return clean


def says_fallback(tree):
    """Whether diagnostics inside an outcome carry a solver warning."""
    if isinstance(tree, (list, tuple)):
        if named(tree, "solver_warning") and isinstance(tree[1], str) and tree[1]:
            return True
        return any(says_fallback(v) for v in tree if isinstance(v, (list, tuple)))
    return False


def lowered(tree):
    """Whether the reported targets of a relaxed risk parity outcome say that one was lowered."""
    if isinstance(tree, (list, tuple)):
        if named(tree, "dict") and isinstance(tree[1], list):
            d = {k: v for k, v in tree[1] if isinstance(k, str)} if all(isinstance(e, (list, tuple)) and len(e) == 2 for e in tree[1]) else {}
            if d.get("target_clipped") is True or "True" in str(d.get("target_clipped")):
                return True
            if "requested_target" in d and "effective_target" in d and str(d["requested_target"]) != str(d["effective_target"]):
                return True
        return any(lowered(v) for v in tree if isinstance(v, (list, tuple)))
    return False


class C27(Check):
    id = "C27"
    n_quick = 600
    n_thorough = 20000
    rule = ("one case = one data world and three operations; each is run undisturbed and then six times with failing solvers, optimisers or "
            "linear algebra (single, double, or failing for good) or memory running out at a library line; non-trivial when a fault "
            "fired; distinct by (operation, outcome, faults) sequence")
    sig_measure = "sequence of (operation, verdict, fired fault labels)"

    def gen(self, rng, i, tier):
        cfg = world.gen_cfg(rng)
        avoid = ("slow",) + (("plot",) if rng.random() < 0.7 else ())
        ops = []
        while len(ops) < 3:
            o = world.pick_op(rng, cfg, avoid=avoid)
            if o["op"] not in ("reject", "reject2"):
                ops.append(o)
        return {"cfg": cfg, "seed": rng.randrange(1 << 30), "ops": ops, "tries": 6}

    def shrink(self, case):
        if case["tries"] > 1:
            yield dict(case, tries=case["tries"] // 2)
            yield dict(case, tries=case["tries"] - 1)
        yield from common.shrink_ops(case)

    def once(self, res, x, spec, plan, crash=None, lines=False):
        """Outcome, simulation and announcements of one call."""
        pr = common.try_prepare(x, spec)
        if pr is None:
            return None, None, None
        op, args, _ = pr
        sim = sched.Sim(common.keyed(plan, spec["op"]))
        sim.record_lines = lines
        sim.skip_crash_lines = sched.skip_cleanup
        heard = Heard()
        lg = logging.getLogger("pyvallocation")
        level = lg.level
        lg.addHandler(heard)
        lg.setLevel(logging.WARNING)
        try:
            with sim, warnings.catch_warnings(record=True) as ws:
                warnings.simplefilter("always")
                if lines or crash:
                    kw = dict(crash_at=crash, crash_exc="MemoryError") if crash else {}
                    o = sim.run_traced(lambda: common.call(sim, spec["op"], op, args), **kw)
                else:
                    o = common.call(sim, spec["op"], op, args)
                said = sorted({str(w.message)[:80] for w in ws if not issubclass(w.category, (DeprecationWarning, FutureWarning))})
        finally:
            lg.removeHandler(heard)
            lg.setLevel(level)
        res.take(sim)
        return o, sim, said + sorted(set(heard.lines))

    def run(self, case):
        res = Result()
        for j, spec in enumerate(case["ops"]):
            r = rnd(case["seed"], j, spec["op"])
            x = world.Ctx(case["cfg"])
            clean, sim, quiet = self.once(res, x, spec, {}, lines=True)
            if clean is None:
                continue
            name = spec["op"]
            res.op(name)
            ts = sim.serial_ts
            points = [q for q in ts.seam_list if not q[0].startswith("callback")]
            firsts, hot = sorted(ts.first_lines.values()), sched.hot_steps(ts.first_lines)
            for m in range(case["tries"]):
                plan, crash = {}, None
                u = r.random()
                if points and u < 0.75:
                    for _ in range(r.choice([1, 1, 1, 2])):
                        q = points[int(r.random() * len(points))]
                        a = faults.gen_action(r, q[0])
                        plan[q[0], "*" if r.random() < 0.2 else q[1]] = a
                elif firsts:
                    pool = hot if hot and r.random() < 0.4 else firsts
                    crash = pool[int(r.random() * len(pool))]
                else:
                    continue
                o, sim, said = self.once(res, world.Ctx(case["cfg"]), spec, plan, crash)
                if o is None or not sim.fired:
                    continue
                how = f"{name} with {sim.fired[:4]}" + (f" at {sim.serial_ts.crashed}" if crash else "") + f"; params {spec['p']}"
                verdict = self.judge(res, spec, clean, o, [s for s in said if s not in quiet], sim, how)
                res.count("outcome " + verdict)
                res.sig(name, verdict, sorted(set(sim.fired)))
                res.note(name, sim.fired[:3], "->", verdict)
        return res.out()

    def judge(self, res, spec, clean, o, said, sim, how):
        if o[0] == "exc":
            kind = o[1][1]
            if kind in INTERNAL and not sim.serial_ts.inside and not (clean[0] == "exc" and clean[1][1] == kind) and "injected" not in o[1][2]:
                res.bad("disorderly failure", f"{how}: ended in {kind}: {o[1][2][:200]}")
            return "error"
        if clean[0] == "exc":
            if not said and not says_fallback(o[1]):
                res.bad("failure made an answer", f"{how}: undisturbed it raises {clean[1][1]}: {clean[1][2][:120]}; disturbed it returned")
            return "answer"
        clean0, o0 = (clean[0], canon.tied(clean[1])), (o[0], canon.tied(o[1]))
        d = common.same(clean0, o0, rtol=1e-4, atol=1e-7)
        if d is None:
            return "same"
        if said:
            return "announced"
        if says_fallback(o[1]):
            return "diagnosed"
        d = common.same((clean[0], overlays_absent(clean0[1], o0[1])), o0, rtol=1e-4, atol=1e-7)
        if d is None:
            return "overlay absent"
        if self.documented(spec, clean, o, sim):
            return "documented"
        res.bad("silently different", f"{how}: {d}")
        return "different"

    @staticmethod
    def documented(spec, clean, o, sim):
        """Degradations the documentation allows without a message (their conditions are decided by C06, C07, C08, C10 and C14)."""
        name, p = spec["op"], spec["p"]
        words = name + " " + json.dumps(p, default=str)
        solver = any(f.startswith("solver") for f in sim.fired)
        if name in ("discretize", "alloc_more"):
            return "milp" not in words                               # the exact method failing, its documented fallback is greedy
        if name == "psd":
            return True                                              # a matrix that cannot be checked counts as not PSD
        if name.startswith("views"):
            return "CVaR" in words or "cvar" in words or name != "views"   # candidates of the CVaR view search that failed are skipped
        if sim.serial_ts.crashed and name == "robust_frontier":
            return True                                              # overlay computed from scenarios when the given covariance fails
        if solver and name in ("rrp_diag", "rrp_frontier"):
            return lowered(o[1])                                     # the reported effective target says it
        if solver and ("rrp" in words or name in ("con_more", "wrap_more", "ens_more", "assemble_shared", "wrapper_ensemble")):
            return True                                              # weights alone cannot show the lowered target
        return False


CHECK = C27()
