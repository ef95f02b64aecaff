"""C04: calls never modify what they are given or read; failed calls can be retried."""
from .. import canon, common, sched, seams, world
from ..common import Check, Result, rnd


class C04(Check):
    id = "C04"
    n_quick = 900
    n_thorough = 12000
    rule = ("one case = one data world (arrays C/Fortran/read-only or labelled tables) and three operations; each is run "
            "clean, with mangled input, with up to three dependency/callback faults, retried and repeated on the same "
            "arguments and shared objects; non-trivial when a fault fired; distinct by (operation, outcome, faults) sequence")
    sig_measure = "sequence of (operation, outcome kinds, fired fault labels)"

    def gen(self, rng, i, tier):
        cfg = world.gen_cfg(rng)
        return {"cfg": cfg, "seed": rng.randrange(1 << 30),
                "ops": [world.pick_op(rng, cfg, avoid=("slow",) + (("plot",) if rng.random() < 0.7 else ())) for _ in range(3)],
                "k": rng.choice([1, 1, 2, 3])}

    def shrink(self, case):
        yield from common.shrink_ops(case)

    def run(self, case):
        res = Result()

        def reference():
            out = []
            for spec in case["ops"]:
                pr = common.try_prepare(world.Ctx(case["cfg"]), spec)
                if pr is None:
                    out.append(None)
                    continue
                s = sched.Sim()
                with s:
                    o = common.call(s, spec["op"], pr[0], pr[1])
                out.append((o, list(s.serial_ts.seam_list)))
            return out

        refs = common.isolated(reference)
        x = world.Ctx(case["cfg"])
        for spec, ref in zip(case["ops"], refs):
            pr = common.try_prepare(x, spec)
            if pr is None or ref is None:
                continue
            op, args, cb = pr
            ref, points = ref
            name = spec["op"]
            r = rnd(case["seed"], name)
            res.op(name)

            def watch(fn, how, args=args):
                shared = dict(x.built())
                a0, x0 = canon.snap(args), canon.snap(shared)
                o = fn()
                for what, before, now in (("arguments", a0, args), ("shared objects", x0, shared)):
                    d = canon.snap_diff(before, canon.snap(now), what)
                    if d:
                        res.bad(f"mutated:{what}", f"{name} {how}: {d}; params {spec['p']}")
                return o

            def clean():
                s = sched.Sim()
                with s:
                    o = common.call(s, name, op, args)
                res.take(s)
                return o

            def faulty():
                plan = common.plan_pick(r, points, case["k"])
                s = sched.Sim(common.keyed(plan, name))
                with s:
                    o = common.call(s, name, op, args)
                res.take(s)
                res.sig(name, o[0], sorted(s.fired))
                res.note(name, "faults", s.fired, "->", o[0])
                return o, s.fired

            def expect(o, how):
                d = common.same(ref, o)
                if d:
                    res.bad("differs:" + how, f"{name} {how}: {d}; params {spec['p']}")

            if r.random() < 0.5:
                expect(watch(clean, "clean call"), "first call on shared objects")
            bad, what = common.mangle(args, r)
            if bad is not None:
                def mangled():
                    s = sched.Sim(step_budget=10 ** 9)
                    with s:
                        return common.call(s, name, op, bad)
                try:
                    o = watch(mangled, f"with mangled {what}", bad)
                    res.sig(name, "mangled", o[0])
                except sched.SimBudget:
                    pass
            failed = []
            for m in range(2):
                o, fired = watch(faulty, "under faults")
                failed += fired
            expect(watch(clean, f"retry after {failed}"), "retry after failure")
            expect(watch(clean, "repeat"), "repeat")
        return res.out()


CHECK = C04()
