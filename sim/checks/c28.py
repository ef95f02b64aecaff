"""C28: objects and results survive a crash and restart of the process: saved, restored, they continue as if nothing happened."""
import copy
import gc
import io
import pickle


from .. import boot, canon, common, sched, seams, world
from ..common import Check, Result, rnd

# library objects a user would save, and what each is read by after the restart (public interface only)
OBJECTS = ["dist_m", "dist_s", "dist_b", "wrap_m", "wrap_s", "wrap_b", "wrap_k", "wrap_l", "wrap_h", "wrap_r", "niw", "rbp", "fr_v",
           "fr_c", "fr_r", "fr_p", "fvp", "blp", "costs"]
MODES = ["restart", "restart", "restart", "crash", "crash", "copy", "deepcopy", "pickle"]
FUNCTIONS = ("repricer", "specs")         # these hold functions made on the fly, which cannot be saved
MADE = ("ens_more", "make_repricing_fn", "compose_repricers")     # so may the results of these


def public(o, depth=0):
    """Canonical public state of a library object."""
    d = getattr(o, "__dict__", None)
    if d is not None and type(o).__module__.startswith("pyvallocation") and depth < 6:
        return ("obj", type(o).__name__, [(k, public(v, depth + 1)) for k, v in sorted(d.items()) if not k.startswith("_")])
    return canon.canon(o)


def dump(o, protocol):
    b = io.BytesIO()
    pickle.Pickler(b, protocol).dump(o)
    return b.getvalue()


def niw_read(n):
    return (n.is_updated() if callable(getattr(n, "is_updated", None)) else None,
            *(canon.canon(common.guarded(f)) for f in (n.get_mu_ce, n.get_S_mu, n.get_sigma_ce, lambda: n.cred_radius_mu(0.8),
                                                       lambda: n.cred_radius_sigma_factor(0.8))))


class C28(Check):
    id = "C28"
    limits = (25, 60)
    n_quick = 900
    n_thorough = 12000
    rule = ("one case = one data world: some operations run (half of the time with failing dependencies) in a process that then ends, in a "
            "third of the cases in the middle of one of them; the library objects and results it saved are restored in a process that never "
            "ran those operations, where further operations use them; distinct by (operations, mode, saved objects, place of the crash)")
    sig_measure = "sequence of (mode, operations, saved objects, crash place)"

    def gen(self, rng, i, tier):
        cfg = world.gen_cfg(rng)

        def ops(k):
            out = []
            while len(out) < k:
                o = world.pick_op(rng, cfg, avoid=("slow", "plot"))
                if o["op"] not in ("reject2",):
                    out.append(o)
            return out
        return {"cfg": cfg, "seed": rng.randrange(1 << 30), "mode": rng.choice(MODES), "ops": ops(rng.choice([1, 2])), "then": ops(3),
                "save": sorted(rng.sample(OBJECTS, 3)), "fault": rng.random() < 0.5, "protocol": rng.choice([2, 4, 5]), "u": rng.random(),
                "niw": [rng.choice(["u", "u", "s", "s", "bad", "read"]) for _ in range(rng.choice([0, 4, 6]))]}

    def shrink(self, case):
        for k in ("ops", "then"):
            if len(case[k]) > 1:
                yield dict(case, **{k: case[k][:-1]})
                yield dict(case, **{k: case[k][1:]})
        if len(case["save"]) > 1:
            for n in case["save"]:
                yield dict(case, save=[k for k in case["save"] if k != n])
        if case["fault"]:
            yield dict(case, fault=False)
        if case["niw"]:
            yield dict(case, niw=case["niw"][:-1])
            yield dict(case, niw=[])
        for cfg in world.shrink_cfg(case["cfg"]):
            yield dict(case, cfg=cfg)

    # -- the process that will end --------------------------------------
    def first_life(self, case):
        """Objects built, operations run, everything saved: {name: bytes}, public state, results, problems, crash place, faults."""
        r = rnd(case["seed"], "life")
        x = world.Ctx(case["cfg"])
        out = {"objects": {}, "public": {}, "results": [], "problems": [], "where": None, "faults": []}
        for n in case["save"]:
            common.guarded(lambda: getattr(x, n))

        def save():
            for n in sorted(x.built()):
                if n in FUNCTIONS:
                    continue
                k, v = common.guarded(lambda: dump(x.built()[n], case["protocol"]))
                if k == "exc":
                    out["problems"].append((n, f"{type(v).__name__}: {v}"))
                    continue
                out["objects"][n] = v
                out["public"][n] = public(x.built()[n])

        for i, spec in enumerate(case["ops"]):
            pr = common.try_prepare(x, spec)
            if pr is None:
                continue
            last = i == len(case["ops"]) - 1 and case["mode"] == "crash"
            plan, lines = {}, 0
            if case["fault"] or last:
                t = sched.Sim()
                probe = common.try_prepare(world.Ctx(case["cfg"]), spec)
                with t:
                    t.run_traced(lambda: common.call(t, spec["op"], probe[0], probe[1]))
                lines = t.serial_ts.steps
                if case["fault"] and r.random() < 0.7:
                    plan = common.plan_pick(r, [q for q in t.serial_ts.seam_list if not q[0].startswith("callback")])
            sim = sched.Sim(common.keyed(plan, spec["op"]))
            raw = {}
            with sim:
                sim.begin_op(spec["op"])
                run = lambda: common.guarded(lambda: pr[0].run(pr[1]))
                if last and lines:
                    sim.on_crash = save
                    sim.run_traced(run, crash_at=1 + int(case["u"] * lines), crash_exc="KeyboardInterrupt")
                    out["where"] = sim.serial_ts.crashed
                else:
                    raw["r"] = run()
            out["faults"] += sim.fired
            if "r" in raw:
                k, v = raw["r"]
                if k == "exc" and not type(v).__module__.startswith(("pyvallocation", "builtins")):
                    continue
                k2, b = common.guarded(lambda: dump(v, case["protocol"]))
                if k2 == "exc" and spec["op"] not in MADE:
                    out["problems"].append(("result of " + spec["op"], f"{type(b).__name__}: {b}"))
                elif k2 == "ok":
                    out["results"].append((spec["op"], k, b, canon.canon(v)))
        if not out["where"]:
            save()
        return out

    def run(self, case):
        res = Result()
        mode = case["mode"]
        x = world.Ctx(case["cfg"])
        seams.ACTIVE = None
        if mode in ("restart", "crash"):
            life = common.isolated(lambda: self.first_life(case))
            res.op("restart")
            for n, why in life["problems"]:
                res.bad("cannot be saved", f"{n}: {why}")
            for f in life["faults"]:
                res.fault(f)
            res.fault("process " + ("killed inside a call" if life["where"] else "ended"))
            for n, b in sorted(life["objects"].items()):
                k, o = common.guarded(lambda: pickle.loads(b))
                if k == "exc":
                    res.bad("cannot be restored", f"{n}: {type(o).__name__}: {o}")
                    continue
                d = canon.diff(life["public"][n], public(o))
                if d:
                    res.bad("restored differently", f"{n}: {d}")
                x.built()[n] = o
            for op, k, b, c in life["results"]:
                k2, v = common.guarded(lambda: pickle.loads(b))
                if k2 == "exc":
                    res.bad("result cannot be restored", f"{op}: {type(v).__name__}: {v}")
                elif canon.diff(c, canon.canon(v)):
                    res.bad("result restored differently", f"{op}: {canon.diff(c, canon.canon(v))}")
            where = life["where"]
        else:
            where = None
            for n in case["save"]:
                common.guarded(lambda: getattr(x, n))
            for spec in case["ops"]:
                pr = common.try_prepare(x, spec)
                if pr is not None:
                    s = sched.Sim()
                    with s:
                        common.call(s, spec["op"], pr[0], pr[1])
                    res.take(s)
            twin = {"copy": copy.copy, "deepcopy": copy.deepcopy, "pickle": lambda o: pickle.loads(dump(o, case["protocol"]))}[mode]
            y = world.Ctx(case["cfg"])
            for n, o in sorted(x.built().items()):
                if n in FUNCTIONS:
                    continue
                k, v = common.guarded(lambda: twin(o))
                if k == "exc":
                    res.bad("cannot be copied", f"{n} by {mode}: {type(v).__name__}: {v}")
                    continue
                y.built()[n] = v
                if canon.diff(public(o), public(v)):
                    res.bad("copied differently", f"{n} by {mode}: {canon.diff(public(o), public(v))}")
            if case["u"] < 0.5:
                x.built().clear()          # the originals go away
                gc.collect()
            res.fault("continued with " + mode)
            x = y
        saved = sorted(x.built())
        res.sig(mode, where, [s["op"] for s in case["ops"]], [s["op"] for s in case["then"]], case["save"])
        for spec in case["then"]:
            ref = common.isolated(lambda: self.control(case, spec))
            pr = common.try_prepare(x, spec)
            if (pr is None) != (ref is None):
                res.bad("unusable", f"{spec['op']} {'cannot' if pr is None else 'can only'} be prepared with restored objects {saved}; params {spec['p']}")
            if pr is None or ref is None:
                continue
            s = sched.Sim()
            with s:
                o = common.call(s, spec["op"], pr[0], pr[1])
            res.take(s)
            res.op(spec["op"])
            d = common.same(ref, o)
            res.note(mode, where, spec["op"], "->", d or "same")
            if d:
                res.bad("continues differently", f"{spec['op']} after {mode}{' at ' + where if where else ''}: {d}; params {spec['p']}; history "
                        f"{[q['op'] for q in case['ops']]}")
        self.updates(res, case)
        return res.out()

    @staticmethod
    def control(case, spec):
        pr = common.try_prepare(world.Ctx(case["cfg"]), spec)
        if pr is None:
            return None
        s = sched.Sim()
        with s:
            return common.call(s, spec["op"], pr[0], pr[1])

    def updates(self, res, case):
        """A posterior updated step by step, saved and restored between the steps, against one that never was."""
        if not case["niw"]:
            return
        x = world.Ctx(case["cfg"])
        r = rnd(case["seed"], "niw")
        k, a = common.guarded(lambda: boot.LIB.bayesian.NIWPosterior(**x.niw_args()))
        if k == "exc":
            return
        b = copy.deepcopy(a)
        for i, step in enumerate(case["niw"]):
            if step in ("u", "bad"):
                f = r.choice([0.5, 1.0, 2.0])
                u = dict(sample_mu=x.vec(x.mu0 * f), sample_sigma=x.mat(x.spd0 * f), n_obs=r.choice([5, 20]))
                if step == "bad":
                    u["n_obs"] = -3
                oa, ob = common.guarded(lambda: a.update(**u)), common.guarded(lambda: b.update(**u))
                d = common.same((oa[0], canon.canon(oa[1] if oa[0] == "exc" else None)), (ob[0], canon.canon(ob[1] if ob[0] == "exc" else None)))
                if d:
                    res.bad("update differs", f"update {i} of {case['niw']}: {d}")
            elif step == "s":
                how = r.choice(["pickle", "deepcopy", "copy"])
                k, n = common.guarded(lambda: pickle.loads(dump(b, case["protocol"])) if how == "pickle" else
                                      copy.deepcopy(b) if how == "deepcopy" else copy.copy(b))
                if k == "exc":
                    res.bad("cannot be saved", f"niw by {how}: {type(n).__name__}: {n}")
                    return
                if how != "copy":                      # what happens to the old one is of no concern to the new one
                    old = b
                    common.guarded(lambda: old.update(sample_mu=x.vec(x.mu0 * 9), sample_sigma=x.mat(x.spd0 * 9), n_obs=50))
                b = n
            d = canon.diff(list(niw_read(a)), list(niw_read(b)))
            if d:
                res.bad("update differs", f"after step {i} of {case['niw']}: {d}")
                return


CHECK = C28()
