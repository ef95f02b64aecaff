"""C02: concurrent callers each get the result they would get alone."""
import copy

from .. import canon, common, sched, world
from ..common import Check, Result, rnd


# calls that take per-call constraints and costs on a builder that other threads use too
BUILDER_OPS = ("variance_frontier", "min_variance", "min_variance", "cvar_frontier", "min_cvar", "robust_frontier",
               "robust_gamma", "rrp", "rrp_frontier")


class C02(Check):
    id = "C02"
    n_quick = 1280
    n_thorough = 15000
    rule = ("one case = one data world shared by two or three threads, one or two operations per thread (half the time the same "
            "kind of operation on the same objects), per-operation fault plans and up to ten planned switches placed at distinct "
            "library lines or dependency calls; non-trivial when a switch happened; distinct by the taken switches")
    sig_measure = "operations of every thread and the (thread, step, target) switches taken"

    def gen(self, rng, i, tier):
        cfg = world.gen_cfg(rng)
        nt = rng.choice([2, 2, 2, 3])
        same = rng.random()
        avoid = ("slow", "plot")

        def one(name=None):
            if name:
                return {"op": name, "p": world.OPS[name].gen(rng, cfg), "k": rng.choice([0, 0, 0, 1])}
            return dict(world.pick_op(rng, cfg, avoid=avoid, want=("read",) if rng.random() < 0.12 else None), k=rng.choice([0, 0, 0, 1]))
        def on(w):
            """An optimiser call on the shared builder `w`."""
            while True:
                name = rng.choice(BUILDER_OPS)
                for _ in range(12):
                    o = one(name)
                    if o["p"].get("w") == w:
                        return o
        if rng.random() < 0.3:
            w = rng.choice(["b", "b", "m", "k", "l", "h"])
            threads = [[on(w)] for _ in range(nt)]
            if rng.random() < 0.4:
                for th in threads[1:]:
                    for _ in range(12):
                        th[0] = one(threads[0][0]["op"])
                        if rng.random() < 0.6:          # problems of the same shape
                            th[0]["p"].update({k: threads[0][0]["p"][k] for k in ("c", "costs", "w") if k in threads[0][0]["p"]})
                        if th[0]["p"]["w"] == w:
                            break
            return self.plan(rng, cfg, threads)
        if rng.random() < 0.12:               # readers of one frontier
            first = world.pick_op(rng, cfg, avoid=avoid, want=("read",))
            while first["op"] == "reject":
                first = world.pick_op(rng, cfg, avoid=avoid, want=("read",))
            threads = []
            for _ in range(nt):
                ops = [one(first["op"]) for _ in range(rng.choice([1, 2, 3]))]
                for o in ops:
                    o["p"].update({k: first["p"][k] for k in ("f", "h") if k in first["p"]})
                    if "alt" in o["p"] and rng.random() < 0.5:
                        o["p"]["alt"] = rng.choice(["Alt", "Flat"]) if first["op"] == "frontier_hand" else True
                threads.append(ops)
            return self.plan(rng, cfg, threads)
        first = one()
        threads = []
        for t in range(nt):
            n = rng.choice([1, 1, 2])
            ops = [one() for _ in range(n)]
            if same < 0.6:
                ops[0] = one(first["op"]) if t else first
                if same < 0.25:
                    ops[0]["p"] = copy.deepcopy(first["p"])
            threads.append(ops)
        return self.plan(rng, cfg, threads)

    def plan(self, rng, cfg, threads):
        nt = len(threads)
        return {"cfg": cfg, "seed": rng.randrange(1 << 30), "threads": threads, "first": rng.randrange(nt),
                "meet": [rng.randrange(nt), rng.random(), rng.random(), rng.random()] if rng.random() < 0.35 else None,
                "switches": [[rng.randrange(nt), rng.random(), rng.random(), rng.random(), rng.randrange(1, nt)]
                             for _ in range(rng.choice([1, 2, 4, 7, 10]))]}

    def shrink(self, case):
        th = case["threads"]
        for t in range(len(th)):
            for j in range(len(th[t])):
                if len(th[t]) > 1:
                    c = copy.deepcopy(case)
                    del c["threads"][t][j]
                    yield c
                if th[t][j]["k"]:
                    c = copy.deepcopy(case)
                    c["threads"][t][j]["k"] = 0
                    yield c
        if len(th) > 2:
            for t in range(len(th)):
                c = copy.deepcopy(case)
                del c["threads"][t]
                c["first"] = 0
                c["switches"] = [[s[0] % 2] + s[1:4] + [1] for s in c["switches"]]
                yield c
        if case.get("meet"):
            yield dict(copy.deepcopy(case), meet=None)
            yield dict(copy.deepcopy(case), switches=[])
        for i in range(len(case["switches"])):
            c = copy.deepcopy(case)
            del c["switches"][i]
            yield c
        for cfg in world.shrink_cfg(case["cfg"]):
            yield dict(copy.deepcopy(case), cfg=cfg)

    def meeting(self, meet, prog, ref, offs, n):
        """Hold every thread, one after the other, at the same library line (inside the same window); then let the
        first go on: what was entered in the order A, B is left in the order A, B."""
        t0, a, b, c = meet
        t0 %= n
        if not prog[t0]:
            return {}
        j0 = prog[t0][0][0]
        lines = ref[t0, j0][5]
        others = [t for t in range(n) if t != t0 and prog[t]]
        common_lines = sorted((s, k) for k, s in lines.items() if any(k in ref[t, prog[t][0][0]][5] for t in others))
        if not common_lines:
            return {}
        s0, key = common_lines[int(a * len(common_lines))]
        ring = [t0] + [t for t in others if key in ref[t, prog[t][0][0]][5]]
        out = {}
        for i, t in enumerate(ring):
            j = prog[t][0][0]
            at = ref[t, j][5][key]
            later = sorted(s for s in ref[t, j][5].values() if s >= at)
            if i and b < 0.5 and later:          # the others may go a little further into the window
                at = later[min(int(c * c * 12), len(later) - 1)]
            out[t, offs[t, j] + at] = ring[(i + 1) % len(ring)]
        return out

    def run(self, case):
        res = Result()
        common.odd_settings(rnd("set", case["seed"]))

        def reference():
            out = {}
            for t, ops in enumerate(case["threads"]):
                for j, spec in enumerate(ops):
                    x = world.Ctx(case["cfg"])
                    pr = common.try_prepare(x, spec)
                    if pr is None:
                        continue
                    plan = {}
                    if spec["k"]:
                        s = sched.Sim()
                        with s:
                            common.call(s, "ref", pr[0], pr[1])
                        plan = common.plan_pick(rnd(case["seed"], t, j), s.serial_ts.seam_list, spec["k"])
                        pr = common.prepare(x, spec)
                    s = sched.Sim(common.keyed(plan, f"{t}.{j}"))
                    s.record_lines = True
                    with s:
                        o = s.run_traced(lambda: common.call(s, f"{t}.{j}", pr[0], pr[1]))
                    ts = s.serial_ts
                    out[t, j] = (o, plan, ts.steps, sorted(ts.first_lines.values()), list(ts.seam_steps),
                                 dict(ts.first_lines))
            return out

        ref = common.isolated(reference)
        x = world.Ctx(case["cfg"])
        x.dist_b
        prog, plan, offs = [], {}, {}
        for t, ops in enumerate(case["threads"]):
            mine, off = [], 0
            for j, spec in enumerate(ops):
                if (t, j) not in ref:
                    continue
                pr = common.try_prepare(x, spec)
                if pr is None:
                    continue
                key = f"{t}.{j}"
                plan.update(common.keyed(ref[t, j][1], key))
                offs[t, j] = off
                off += ref[t, j][2]
                mine.append((j, key, spec, pr[0], pr[1]))
                res.op(spec["op"])
            prog.append(mine)
        if len([m for m in prog if m]) < 2:
            return res.out()
        switches = {}
        n = len(prog)
        for t, a, b, c, d in case["switches"]:
            t %= n
            if not prog[t]:
                continue
            j = prog[t][int(a * len(prog[t]))][0]
            _, _, steps, firsts, seam_steps, lines = ref[t, j]
            hot = sched.hot_steps(lines) if b < 0.25 else ()
            pool = hot if hot else seam_steps if b < 0.5 and seam_steps else firsts if b < 0.9 and firsts else range(1, steps + 1)
            if not len(pool):
                continue
            switches[t, offs[t, j] + pool[int(c * len(pool))]] = (t + d) % n if (t + d) % n != t else (t + 1) % n
        if case.get("meet"):
            switches.update(self.meeting(case["meet"], prog, ref, offs, n))
        sim = sched.Sim(plan, switches)
        shared = dict(x.built())
        x0, s0 = canon.snap(shared), common.settings()

        def body(mine):
            def go():
                return [(key, common.call(sim, key, op, args)) for _, key, _, op, args in mine]
            return go

        with sim:
            out = sim.run_threads([body(m) for m in prog], first=case["first"] % n)
        res.take(sim)
        res.sig([[m[2]["op"] for m in ms] for ms in prog], sim.switch_log)
        res.count("threads", n)
        s1 = common.settings()
        d = canon.snap_diff(x0, canon.snap(shared), "shared objects")
        what = " | ".join(",".join(m[2]["op"] for m in ms) for ms in prog)
        if d:
            res.bad("shared", f"threads [{what}]: {d}; switches {sim.switch_log}")
        d = common.settings_diff(s0, s1)
        if d:
            res.bad("setting", f"threads [{what}]: {', '.join(d)} changed; switches {sim.switch_log}")
        for ms, r in zip(prog, out):
            if r[0] == "exc":
                if isinstance(r[1], sched.Deadlock):
                    res.bad("deadlock", f"threads [{what}] deadlock; switches {sim.switch_log}")
                elif isinstance(r[1], sched.SimBudget):
                    res.bad("runaway", f"threads [{what}]: {r[1]}")
                else:
                    raise r[1]
                continue
            for (j, key, spec, _, _), (k2, o) in zip(ms, r[1]):
                t = int(key.split(".")[0])
                d = common.same(ref[t, j][0], o)
                if d:
                    res.bad("result", f"{spec['op']} in thread {t} of [{what}]: alone vs concurrent: {d}; "
                                      f"switches {sim.switch_log}; faults {sim.fired}; params {spec['p']}")
        res.note("threads", what, "switches", sim.switch_log, "faults", sim.fired)
        return res.out()


CHECK = C02()
