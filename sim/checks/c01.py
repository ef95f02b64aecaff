"""C01: seeded operations are exactly repeatable and isolated from global randomness."""
import copy
import random as pyrandom

import numpy as np

from .. import common, sched, world
from ..common import Check, Result, rnd

DRAWS = ("project_scenarios", "simulate_paths", "views_synth", "from_invariants", "stress_invariants", "horizon_report", "cvar_sampled")


def rng_state():
    return repr(pyrandom.getstate()), repr([v.tolist() if isinstance(v, np.ndarray) else v for v in np.random.get_state()])


class C01(Check):
    id = "C01"
    n_quick = 640
    n_thorough = 12000
    limits = (110, 200)
    external = True
    rule = ("one case = three target operations (sampling operations preferred); reference outcomes come from a fresh interpreter "
            "with another hash seed and no history; the case reseeds the process-wide generators, lets the simulated clock "
            "jump, runs up to five other operations (the same kind on other data of the same shape and with other parameters, "
            "some failing from injected faults), then the target, on fresh and on shared objects; distinct by operation history")
    sig_measure = "history of operations and outcome kinds before each target"

    def gen(self, rng, i, tier):
        cfg = world.gen_cfg(rng)
        ops = []
        for _ in range(3):
            want = ("rand",) if rng.random() < 0.55 else None
            s = world.pick_op(rng, cfg, want=want, avoid=("slow",) + (("plot",) if rng.random() < 0.7 else ()))
            s["alt"] = world.OPS[s["op"]].gen(rng, cfg)
            s["hist"] = [dict(world.pick_op(rng, cfg, avoid=("slow", "plot")), k=rng.choice([0, 0, 1])) for _ in range(rng.choice([0, 1, 2]))]
            ops.append(s)
        if i % 57 == 7:
            ops = [{"op": "cvar_sampled", "p": world.OPS["cvar_sampled"].gen(rng, cfg), "alt": None, "hist": ops[0]["hist"]}]
        return {"cfg": cfg, "seed": rng.randrange(1 << 30), "ops": ops}

    def shrink(self, case):
        for j, s in enumerate(case["ops"]):
            if s["hist"]:
                c = copy.deepcopy(case)
                c["ops"][j]["hist"] = []
                yield c
        yield from common.shrink_ops(case)

    def reference(self, case):
        out = []
        for spec in case["ops"]:
            pr = common.try_prepare(world.Ctx(case["cfg"]), spec)
            if pr is None:
                out.append(None)
                continue
            s = sched.Sim()
            with s:
                out.append((common.call(s, spec["op"], pr[0], pr[1]), list(s.serial_ts.seam_list)))
        return out

    def run(self, case):
        res = Result()
        refs = self.ext
        x = world.Ctx(case["cfg"])
        other = world.Ctx(dict(case["cfg"], seed=case["cfg"]["seed"] ^ 1234567))
        for spec, ref in zip(case["ops"], refs):
            name = spec["op"]
            if ref is None:
                continue
            ref, points = ref
            r = rnd(case["seed"], name)
            res.op(name)

            def go(ctx, sp, plan=None, take=True):
                pr = common.try_prepare(ctx, sp)
                if pr is None:
                    return None
                s = sched.Sim(common.keyed(plan or {}, sp["op"]))
                s.clock = r.uniform(1e9, 3e9)
                before = rng_state()
                with s:
                    o = common.call(s, sp["op"], pr[0], pr[1])
                if rng_state() != before:
                    which = "random" if rng_state()[0] != before[0] else "numpy.random"
                    res.bad("global-rng", f"{sp['op']} advanced or reseeded {which}; params {sp['p']}")
                res.take(s)
                return o

            def expect(o, how):
                if o is None:
                    return
                d = common.same(ref, o)
                if d:
                    res.bad("differs:" + how, f"{name} {how}: {d}; params {spec['p']}")

            def reseed():
                pyrandom.seed(r.random())
                np.random.seed(r.randrange(1 << 31))
            reseed()
            expect(go(world.Ctx(case["cfg"]), spec), "in another interpreter / other generator state")
            hist = []
            for h in spec["hist"]:
                o = go(x if r.random() < 0.5 else other, h, common.plan_pick(r, points, 1) if h["k"] else None)
                hist.append((h["op"], o and o[0]))
            if name != "cvar_sampled":
                o = go(other, spec)
                hist.append(("same on other data", o and o[0]))
                for ctx in (x, other) if r.random() < 0.5 else (x,):
                    o = go(ctx, {"op": name, "p": spec["alt"]})
                    hist.append(("other parameters", o and o[0]))
                o = go(x, spec, common.plan_pick(r, points, 1))
                hist.append(("faulted", o and o[0]))
            reseed()
            expect(go(x, spec), "after other operations")
            if "seed" in spec["p"]:
                world.FORCE_SEED = "int"
                a = go(x, spec) if name != "cvar_sampled" else None
                world.FORCE_SEED = "np"
                b = go(x, spec) if name != "cvar_sampled" else None
                world.FORCE_SEED = None
                expect(a, "with the seed as int")
                expect(b, "with the seed as numpy integer")
                if name in DRAWS and spec["p"].get("fn") != "norng" and ref[0] == "ok":
                    p2 = copy.deepcopy(spec)
                    p2["p"]["seed"] += 1
                    o = go(x, p2)
                    if o is not None and o[0] == "ok" and common.same(ref, o, rtol=0.0, atol=0.0) is None:
                        res.bad("same-draws", f"{name}: seeds {spec['p']['seed']} and {p2['p']['seed']} give the same result; params {spec['p']}")
                    res.count("seed pairs compared")
            res.sig(name, hist)
            res.note(name, "after", hist)
        return res.out()


CHECK = C01()
