"""C15: an interrupted call leaves everything reusable."""
from .. import canon, common, faults, sched, world
from ..common import Check, Result, rnd


def crash_points(ts, r, k, hot=(), stores=()):
    """k interruption points: distinct lines, lines where an effect is half done, arbitrary steps, before/after dependency calls."""
    firsts = sorted(ts.first_lines.values())
    out = []
    for _ in range(k):
        u = r.random()
        if u < 0.24 and stores:
            out.append(("line", stores[int(r.random() * len(stores))]))
        elif u < 0.36 and hot:
            out.append(("line", hot[int(r.random() * len(hot))]))
        elif u < 0.52 and ts.total_seams:
            out.append(("seam", 1 + int(r.random() * ts.total_seams), r.choice(["before", "after"])))
        elif u < 0.88 and firsts:
            out.append(("line", firsts[int(r.random() * len(firsts))]))
        elif ts.steps:
            out.append(("line", 1 + int(r.random() * ts.steps)))
    return out


class C15(Check):
    id = "C15"
    n_quick = 1280
    n_thorough = 12000
    rule = ("one case = one data world and two operations; each is interrupted at six points (library lines chosen uniformly "
            "among distinct executed lines, lines right after an effect that outlives the call or inside a guarded block, arbitrary steps, before/after dependency calls), checked, and repeated; distinct by "
            "(operation, interrupt kind and place) sequence")
    sig_measure = "sequence of (operation, interrupt kind, file:line or dependency call)"

    def gen(self, rng, i, tier):
        cfg = world.gen_cfg(rng)
        return {"cfg": cfg, "seed": rng.randrange(1 << 30), "points": 6,
                "ops": [world.pick_op(rng, cfg, avoid=("slow",) + (("plot",) if rng.random() < 0.7 else ())) for _ in range(2)]}

    def shrink(self, case):
        if case["points"] > 1:
            yield dict(case, points=1)
            yield dict(case, points=2)
        yield from common.shrink_ops(case)

    def run(self, case):
        res = Result()
        common.odd_settings(rnd("set", case["seed"]))
        import warnings
        warnings.simplefilter("ignore")

        def reference():
            out = []
            for spec in case["ops"]:
                pr = common.try_prepare(world.Ctx(case["cfg"]), spec)
                if pr is None:
                    out.append(None)
                    continue
                s = sched.Sim()
                s.record_lines = True
                with s:
                    o = s.run_traced(lambda: common.call(s, spec["op"], pr[0], pr[1]))
                t = s.serial_ts
                out.append((o, t.steps, t.total_seams, sorted(t.first_lines.values()), sched.hot_steps(t.first_lines),
                            sched.hot_steps(t.first_lines, guarded=False)))
            return out

        refs = common.isolated(reference)
        x = world.Ctx(case["cfg"])
        after = []
        for spec, ref in zip(case["ops"], refs):
            pr = common.try_prepare(x, spec)
            if pr is None or ref is None:
                continue
            op, args, cb = pr
            o_ref = ref[0]
            ts = sched._TS(0)
            ts.steps, ts.total_seams = ref[1], ref[2]
            ts.first_lines = dict(enumerate(ref[3]))
            name = spec["op"]
            r = rnd(case["seed"], name)
            res.op(name)
            for pt in crash_points(ts, r, case["points"], ref[4], ref[5]):
                kind = r.choice(["KeyboardInterrupt", "KeyboardInterrupt", "MemoryError"])
                shared = dict(x.built())
                a0, x0, s0 = canon.snap(args), canon.snap(shared), common.settings()
                sim = sched.Sim()
                sim.skip_crash_lines = sched.skip_cleanup
                with sim:
                    kw = dict(crash_at=pt[1], crash_exc=kind) if pt[0] == "line" else dict(crash_seam=(pt[1], kind, pt[2]))
                    o = sim.run_traced(lambda: (sim.begin_op(name), common.guarded(lambda: op.run(args)))[1], **kw)
                where = sim.serial_ts.crashed
                res.take(sim)
                if not where:
                    continue
                res.sig(name, kind, where)
                res.note(name, kind, "at", where, "->", o[0], type(o[1]).__name__)
                how = f"{name} hit by {kind} at {where}"
                if kind == "KeyboardInterrupt" and not sim.serial_ts.inside and not (o[0] == "exc" and isinstance(o[1], KeyboardInterrupt)):
                    res.bad("swallowed", f"{how}: the interrupt did not reach the caller ({o[0]}: {str(o[1])[:100]}); params {spec['p']}")
                o = None
                d = canon.snap_diff(a0, canon.snap(args), "arguments") or canon.snap_diff(x0, canon.snap(shared), "shared objects")
                if d:
                    res.bad("left:object", f"{how}: {d}; params {spec['p']}")
                d = common.settings_diff(s0, common.settings())
                if d:
                    res.bad("left:setting", f"{how}: {d}; params {spec['p']}")
                if r.random() < 0.5:
                    after.append((spec, op, args, o_ref, how))
                    self.repeat(res, spec, op, args, o_ref, how)
            self.repeat(res, spec, op, args, o_ref, "the interruptions of " + name)
        for spec, op, args, o_ref, how in after[:2]:
            self.repeat(res, spec, op, args, o_ref, "later: " + how)
        return res.out()

    def repeat(self, res, spec, op, args, o_ref, how):
        s = sched.Sim()
        with s:
            o = common.call(s, spec["op"], op, args)
        res.take(s)
        d = common.same(o_ref, o)
        if d:
            res.bad("repeat", f"{spec['op']} repeated after {how}: {d}; params {spec['p']}")


CHECK = C15()
