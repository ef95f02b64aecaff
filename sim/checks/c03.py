"""C03: process-wide settings survive every call, successful or failing."""
from .. import canon, common, sched, world
from ..common import Check, Result, rnd


class C03(Check):
    id = "C03"
    n_quick = 800
    n_thorough = 12000
    rule = ("one case = one process with unusual settings, one data world and three operations, each run cleanly, with up to "
            "three planned dependency/callback failures, with one argument made invalid and with one failure at a library line; non-trivial when a fault "
            "fired; distinct by (operation, fired faults) sequence")
    sig_measure = "sequence of (operation, outcome kind, fired fault labels)"

    def gen(self, rng, i, tier):
        cfg = world.gen_cfg(rng)
        return {"cfg": cfg, "seed": rng.randrange(1 << 30),
                "ops": [world.pick_op(rng, cfg, avoid=("slow",)) for _ in range(3)], "k": rng.choice([1, 1, 2, 3])}

    def shrink(self, case):
        yield from common.shrink_ops(case)

    def run(self, case):
        res = Result()
        common.odd_settings(rnd("set", case["seed"]))
        x = world.Ctx(case["cfg"])
        for j, spec in enumerate(case["ops"]):
            r = rnd(case["seed"], spec["op"])
            pr = common.try_prepare(x, spec)
            if pr is None:
                continue
            op, args, cb = pr
            name = spec["op"]

            def check(before, how):
                d = common.settings_diff(before, common.settings())
                if d:
                    res.bad("setting:" + d[0], f"{name}: {', '.join(d)} changed by a call that {how}; params {spec['p']}")

            clean = sched.Sim()
            before = common.settings()
            with clean:
                o = common.call(clean, name, op, args)
            check(before, "returned" if o[0] == "ok" else f"raised {o[1][1]}")
            points = list(clean.serial_ts.seam_list)
            steps = 0
            res.op(name)
            res.take(clean)
            res.sig(name, o[0])
            for m in range(2):
                op, args, cb = common.prepare(x, spec)
                plan = common.plan_pick(r, points, case["k"])
                sim = sched.Sim(common.keyed(plan, name))
                before = common.settings()
                with sim:
                    o = common.call(sim, name, op, args)
                check(before, f"met {sim.fired} and " + ("returned" if o[0] == "ok" else f"raised {o[1][1]}"))
                res.take(sim)
                res.sig(name, o[0], sorted(sim.fired))
                res.note(name, "faults", sim.fired, "->", o[0])
            # input that should be rejected
            op, args, cb = common.prepare(x, spec)
            bad, what = common.mangle(args, r)
            if bad is not None:
                sim = sched.Sim(step_budget=10 ** 9)
                before = common.settings()
                try:
                    with sim:
                        o = common.call(sim, name, op, bad)
                    res.sig(name, "mangled", o[0])
                    check(before, f"was given bad input {what} and " + ("returned" if o[0] == "ok" else f"raised {o[1][1]}"))
                except sched.SimBudget:
                    pass
            # a failure at an arbitrary library line
            op, args, cb = common.prepare(x, spec)
            probe = sched.Sim()
            with probe:
                probe.run_traced(lambda: common.call(probe, name, op, args))
            steps = probe.serial_ts.steps
            if steps:
                at = 1 + int(r.random() * steps)
                exc = r.choice(["MemoryError", "KeyboardInterrupt", "ValueError", "FloatingPointError", "RuntimeError"])
                op, args, cb = common.prepare(x, spec)
                sim = sched.Sim()
                sim.skip_crash_lines = sched.skip_cleanup
                before = common.settings()
                with sim:
                    o = sim.run_traced(lambda: common.call(sim, name, op, args), crash_at=at, crash_exc=exc)
                check(before, f"was hit by {exc} at {sim.serial_ts.crashed}")
                res.take(sim)
                res.note(name, "line fault", exc, sim.serial_ts.crashed, "->", o[0])
        return res.out()


CHECK = C03()
