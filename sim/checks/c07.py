"""C07: discrete allocation conserves cash and reports itself truthfully under failures."""
import itertools

import numpy as np

from .. import boot, common, faults, sched, world
from ..common import Check, Result, rnd

MILP = ("milp", "mip", "integer", "lp")


def gen_problem(r):
    n = r.choice([1, 2, 2, 3, 3, 4, 5, 6])
    names = [f"A{i}" for i in range(n)]
    kind = r.choice(["simplex", "simplex", "zeros", "unnormalised", "equal", "short", "levered", "dust"])
    w = [r.random() ** 2 + 0.01 for _ in range(n)]
    if kind == "equal":
        w = [1.0] * n
    if kind == "zeros" and n > 1:
        for i in range(n):
            if r.random() < 0.4 and sum(map(bool, w)) > 1:
                w[i] = 0.0
    if kind == "dust" and n > 1:
        w[0] = r.choice([1e-9, 1e-7, 1e-5, 1e-3])
    s = sum(w)
    w = [v / s for v in w]
    if kind == "unnormalised":
        f = r.choice([0.3, 7.0, 100.0])
        w = [v * f for v in w]
    if kind in ("short", "levered") and n > 1:
        for i in range(1, n):
            if r.random() < 0.5 or i == n - 1:
                w[i] = -w[i] * r.choice([0.1, 0.5, 0.9])
        if kind == "levered":
            w[0] += r.choice([0.5, 1.5])
        if sum(w) <= 0.05:
            w[0] += 0.3 - min(0, sum(w))
        s = sum(w)
        w = [v / s for v in w]
    scale = r.choice(["unit", "mixed", "penny", "big", "ties", "int"])
    pr = [{"unit": r.uniform(5, 60), "mixed": 10 ** r.uniform(-1, 3), "penny": r.uniform(0.001, 0.2), "big": r.uniform(200, 4000),
           "ties": 25.0, "int": float(r.randint(1, 90))}[scale] for _ in range(n)]
    lots = None
    lk = r.choice(["none", "none", "all", "some", "series", "one"])
    if lk != "none":
        lots = {a: r.choice([1, 2, 5, 10, 100]) for a in names if lk != "some" or r.random() < 0.5}
    mean = sum(p * (lots or {}).get(a, 1) for a, p in zip(names, pr)) / n
    total = mean * r.choice([0.3, 1, 2, 5, 5, 20, 20, 100, 1e4, 1e6])
    if r.random() < 0.4:
        total = float(max(1, round(total)))
    if r.random() < 0.1:
        total = pr[0] * (lots or {}).get("A0", 1) * r.choice([1, 3, 7])
    return {"names": names, "w": w, "pr": pr, "lots": lots, "lk": lk, "total": total,
            "extra": r.random() < 0.3, "order": r.randrange(1000), "wt": r.choice(["series", "dict"]), "pt": r.choice(["series", "dict"])}


def gen_request(r, q):
    how = r.choice(["greedy", "greedy", "greedy", "rounddown", "GREEDY"] + list(MILP) + ["milp", "MILP"])
    kw = {}
    mk = {}
    if r.random() < 0.35:
        mk["cash_penalty"] = r.choice([0.0, 0.1, 1.0, 3.0, 50.0])
    if r.random() < 0.2:
        mk["max_cash"] = q["total"] * r.choice([0.001, 0.05, 0.3, 2.0])
    if r.random() < 0.2:
        mk["solver_options"] = r.choice([{"mip_rel_gap": 0.05}, {"mip_rel_gap": 0.0}, {"presolve": False}, {"time_limit": 60.0}])
    if how.lower() in MILP:
        kw = mk
    else:
        if r.random() < 0.6:
            kw["fallback_mode"] = r.choice(["auto", "milp", "none", "AUTO"])
        if r.random() < 0.4:
            kw["max_iterations"] = r.choice([0, 1, 2, 3, 10])
        if mk and r.random() < 0.6:
            kw["fallback_kwargs"] = mk
    return {"how": how, "kw": kw, "via": r.choice(["func", "func", "input", "frontier"]), "col": r.choice([0, 1, 2, 5, -1])}


class Model:
    """The allocation problem as stated: normalised weights of the assets actually held."""

    def __init__(self, q):
        keep = [i for i, v in enumerate(q["w"]) if abs(v) > 1e-8]
        self.names = [q["names"][i] for i in keep]
        w = np.array([q["w"][i] for i in keep])
        self.w = w / w.sum()
        self.p = np.array([q["pr"][i] for i in keep])
        self.lot = np.array([int((q["lots"] or {}).get(a, 1)) for a in self.names])
        self.total = float(q["total"])
        self.L = self.p * self.lot
        self.t = self.w * self.total

    def objective(self, shares, pen):
        v = np.array([shares.get(a, 0) for a in self.names]) * self.p
        return float(np.abs(v - self.t).sum() + pen * max(self.total - v.sum(), 0.0))

    def box(self):
        top = np.floor(np.maximum(self.total, np.abs(self.t)) / self.L) + 1
        return np.where(self.w < 0, -top, 0), top

    def best(self, pen, max_cash):
        """(optimal objective, 'brute'|'milp') or (None, ..) if no allocation is feasible."""
        # a position more than one lot beyond both its target and the budget never pays while the cash penalty is at most 1
        lo, hi = self.box()
        cap = np.inf if max_cash is None else max_cash
        slack = 1e-9 * max(1.0, self.total)
        if np.prod(hi - lo + 1) <= 120000:
            grids = np.array(list(itertools.product(*[np.arange(a, b + 1) for a, b in zip(lo, hi)])))
            v = grids * self.L
            cash = self.total - v.sum(1)
            ok = (cash >= -slack) & (cash <= cap + slack)
            if not ok.any():
                return None, "brute"
            f = np.abs(v - self.t).sum(1) + pen * np.maximum(cash, 0)
            return float(f[ok].min()), "brute"
        if hi.max() > 3000:
            return "?", "milp"
        # split-variable formulation, scaled to a unit budget, no gap
        import scipy.optimize as so
        n, s = len(self.w), self.total
        A = np.zeros((n + 1, 3 * n))
        A[0, :n] = self.L / s
        for i in range(n):
            A[1 + i, i] = self.L[i] / s
            A[1 + i, n + i], A[1 + i, 2 * n + i] = 1, -1
        c = np.concatenate([-pen * self.L / s, np.ones(2 * n)])
        res = so.milp(c, integrality=np.r_[np.ones(n), np.zeros(2 * n)], bounds=so.Bounds(np.r_[lo, np.zeros(2 * n)], np.r_[hi, np.full(2 * n, np.inf)]),
                      constraints=[so.LinearConstraint(A, np.r_[1 - min(cap / s, 1e9), self.t / s], np.r_[1.0, self.t / s])],
                      options={"mip_rel_gap": 0.0, "time_limit": 10.0})
        if res.status == 2:
            return None, "milp"
        if not res.success:
            return "?", "milp"
        return float(res.fun + pen) * s, "milp"


def containers(q):
    import pandas as pd
    w = dict(zip(q["names"], q["w"]))
    p = dict(zip(q["names"], q["pr"]))
    if q["extra"]:
        p["ZZ"] = 3.0
    ks = sorted(p, key=lambda a: hash((a, q["order"])) if False else (sum(map(ord, a)) * 7919 * (q["order"] + 1)) % 101)
    p = {a: p[a] for a in ks}
    lots = q["lots"]
    if lots is not None and q["lk"] == "series":
        lots = pd.Series(lots)
    elif lots is not None:
        lots = dict(lots)
    return (pd.Series(w) if q["wt"] == "series" else w), (pd.Series(p) if q["pt"] == "series" else p), lots


class C07(Check):
    id = "C07"
    n_quick = 900
    n_thorough = 40000
    pin = True
    limits = (12, 40)
    rule = ("one case = one allocation problem (prices, weights incl. shorts and zeros, lots, budget) and two requests (method, options, entry "
            "point), each run clean, with the integer solver failing in several ways and retried; non-trivial when a fault fired; distinct by "
            "(request, outcome, faults, whether the integer solver was used)")
    sig_measure = "sequence of (method, fallback mode, entry, outcome, fired fault labels, integer solves)"

    def gen(self, rng, i, tier):
        q = gen_problem(rng)
        return {"q": q, "req": [gen_request(rng, q) for _ in range(2)], "seed": rng.randrange(1 << 30),
                "faults": [faults.gen_action(rng, "milp") for _ in range(3)]}

    def shrink(self, case):
        import copy
        for i in range(len(case["req"])):
            if len(case["req"]) > 1:
                c = copy.deepcopy(case)
                del c["req"][i]
                yield c
        n = len(case["q"]["names"])
        for i in range(n):
            if n > 1:
                c = copy.deepcopy(case)
                for k in ("names", "w", "pr"):
                    del c["q"][k][i]
                if sum(c["q"]["w"]) > 0.01:
                    yield c
        for i in range(len(case["faults"])):
            c = copy.deepcopy(case)
            del c["faults"][i]
            yield c

    # -- the judged call -------------------------------------------------------------------
    def invoke(self, q, rq, data=None):
        L = boot.LIB
        w, p, lots = data or containers(q)
        if rq["via"] == "frontier":
            import pandas as pd
            W = np.array([list(q["w"])] * 3).T
            other = np.full(len(q["w"]), 1.0 / len(q["w"]))
            W[:, 1 if rq["col"] != 1 else 0] = other
            W[:, 2 if rq["col"] != 2 else 0] = other
            fr = L.PortfolioFrontier(weights=W, returns=np.zeros(3), risks=np.zeros(3), risk_measure="r", asset_names=list(q["names"]))
            return lambda: fr.as_discrete_allocation(rq["col"], p, q["total"], method=rq["how"], lot_sizes=lots, **rq["kw"])
        if rq["via"] == "input":
            from pyvallocation import discrete_allocation as da
            inp = da.DiscreteAllocationInput(weights=w, latest_prices=p, total_value=q["total"], lot_sizes=lots)
            fn = da.allocate_mip if rq["how"].lower() in MILP else da.allocate_greedy
            return lambda: fn(inp, **rq["kw"])
        return lambda: L.discretize_weights(w, p, q["total"], method=rq["how"], lot_sizes=lots, **rq["kw"])

    def judge(self, res, M, v, ctx):
        def bad(key, msg):
            res.bad(key, f"{ctx}: {msg}; shares {v.shares}, leftover {v.leftover_cash}, te {v.tracking_error}")
        res.count("allocations_judged")
        tol = max(1e-8, 1e-12 * M.total) * 4
        for a, s in v.shares.items():
            if a not in M.names:
                return bad("unknown asset", f"{a}")
            if not isinstance(s, (int, np.integer)) or isinstance(s, bool) or s == 0:
                bad("share count", f"{a}: {s!r}")
            if s % M.lot[M.names.index(a)]:
                bad("broken lot", f"{a}: {s} shares, lot {M.lot[M.names.index(a)]}")
            if s < 0 and M.w[M.names.index(a)] > 0:
                bad("short of a long", f"{a}: {s}")
        val = np.array([v.shares.get(a, 0) for a in M.names], float) * M.p
        if val.sum() > M.total + tol:
            bad("overspent", f"spent {val.sum()!r} of {M.total!r}")
        if v.leftover_cash < 0:
            bad("negative cash", v.leftover_cash)
        if not abs(val.sum() + v.leftover_cash - M.total) <= tol:
            bad("cash not conserved", f"{val.sum()!r} + {v.leftover_cash!r} != {M.total!r}")
        aw = v.achieved_weights
        if sorted(map(str, aw.index)) != sorted(M.names):
            return bad("achieved weights index", list(aw.index))
        aw = aw.reindex(M.names).to_numpy(float)
        if not np.allclose(aw, val / M.total, rtol=1e-9, atol=1e-12):
            bad("untrue achieved weights", f"{aw} vs {val / M.total}")
        te = float(np.abs(M.w - val / M.total).sum())
        if not abs(v.tracking_error - te) <= 1e-9 * (1 + te):
            bad("untrue tracking error", f"{v.tracking_error!r}, is {te!r}")
        s = v.as_series()
        if dict(s) != dict(v.shares):
            bad("as_series", f"{dict(s)}")

    def optimal(self, res, M, v, mk, ctx):
        pen = float(mk.get("cash_penalty", 1.0))
        best, how = M.best(pen, mk.get("max_cash"))
        f = M.objective(v.shares, pen)
        if mk.get("max_cash") is not None and v.leftover_cash > mk["max_cash"] + 1e-6 * max(1.0, M.total):
            res.bad("cash cap broken", f"{ctx}: leftover {v.leftover_cash}, cap {mk['max_cash']}")
        if best == "?":
            res.count("reference_unavailable")
            return
        res.count("optimality_checked_" + how)
        if best is None:
            return              # beyond the reference's box; conservation and the cash cap are judged above
        gap = (mk.get("solver_options") or {}).get("mip_rel_gap", 1e-4)
        if f > best + 1.01 * gap * abs(f) + 1e-5 * M.total:
            res.bad("not optimal", f"{ctx}: objective {f!r}, reference {best!r}; shares {v.shares}")

    def run(self, case):
        res = Result()
        q = case["q"]
        r = rnd(case["seed"])
        for j, rq in enumerate(case["req"]):
            M = Model(q)
            shorts = bool((M.w < 0).any())
            via, kw = rq["via"], rq["kw"]
            explicit = rq["how"].lower() in MILP
            mode = (kw.get("fallback_mode") or "auto").lower()
            mk = kw if explicit else (kw.get("fallback_kwargs") or {})
            integer = explicit or shorts
            res.op(("milp" if explicit else "greedy") + "_" + via)
            try:
                fn = self.invoke(q, rq)
            except Exception as e:
                res.bad("valid input rejected", f"{q}: {type(e).__name__}: {e}")
                continue
            data = {"q": {k: q[k] for k in ("w", "pr", "lots", "total")}, "req": rq}

            def once(plan, how, fn=fn):
                sim = sched.Sim({("a", "milp", n): a for n, a in plan.items()}, seam_budget=50)
                seen = []

                def obs(ts, cls, name, a, k, out):
                    if cls == "milp":
                        seen.append(type(out).__name__ if isinstance(out, BaseException) else bool(out.success) or f"status{out.status}")
                sim.observers.append(obs)
                with sim:
                    sim.begin_op("a")
                    kind, v = common.guarded(fn)
                res.take(sim)
                res.sig(rq["how"].lower(), mode, via, how if not plan else "", kind, sorted(sim.fired), len(seen))
                res.note(rq["how"], mode, via, how, "fired", sim.fired, "milp", seen, "->", kind, "" if kind == "exc" else v.shares)
                return kind, v, seen, sim

            if via == "frontier" and rq["col"] not in (0, 1, 2):
                kind, v, seen, sim = once({}, "clean")
                if kind != "exc" or not isinstance(v, IndexError):
                    res.bad("column out of range", f"{data}: {kind} {v!r}")
                continue
            kind, v, seen, sim = once({}, "clean")
            ctx = f"clean {data}"
            if kind == "ok":
                self.judge(res, M, v, ctx)
                if seen and seen[-1] is not True and (integer or mode == "milp"):
                    res.bad("unproven result", f"{ctx}: integer solves {seen}, shares {v.shares}")
                if (seen and seen[-1] is True) or integer:
                    self.optimal(res, M, v, mk, ctx)
            elif integer or seen:
                best, _ = M.best(float(mk.get("cash_penalty", 1.0)), mk.get("max_cash"))
                if best is not None and best != "?" and (not seen or seen[-1] in (True, "status2")):
                    res.bad("solvable problem refused", f"{ctx}: {type(v).__name__}: {v}; reference objective {best}")
                elif not isinstance(v, RuntimeError):
                    res.bad("wrong error", f"{ctx}: {type(v).__name__}: {v}")
                if not integer and mode == "auto":
                    res.bad("automatic method failed", f"{ctx}: {type(v).__name__}: {v}")
            else:
                res.bad("automatic method failed", f"{ctx}: {type(v).__name__}: {v}")
            clean = (kind, v)
            plain = None
            if not explicit and not shorts:
                kw2 = dict(kw, fallback_mode="none")
                k2, plain, s2, _ = once({}, "no fallback", self.invoke(q, dict(rq, kw=kw2)))
                if k2 != "ok" or s2:
                    res.bad("plain greedy failed", f"{data}: {k2} {plain!r} integer solves {s2}")
                    continue
                self.judge(res, M, plain, f"no fallback {data}")
                if not seen and kind == "ok" and v.shares != plain.shares:
                    res.bad("fallback without solver", f"{data}: {v.shares} vs {plain.shares}")
            for act in case["faults"]:
                lab = faults.label("milp", act)
                k3, v3, s3, sm = once({0: act}, lab)
                ctx = f"{lab} {data}"
                if not sm.fired:
                    if act["act"] != "limit" and (k3 == "ok") != (clean[0] == "ok") or (k3 == "ok" and act["act"] != "limit" and v3.shares != clean[1].shares):
                        res.bad("not repeatable", f"{ctx}: {clean} vs {(k3, v3)}")
                    continue
                if integer or mode == "milp":
                    if k3 == "ok":
                        if len(s3) > 1 and s3[-1] is True:      # a genuine second solve
                            self.judge(res, M, v3, ctx)
                            self.optimal(res, M, v3, mk, ctx)
                        else:
                            res.bad("unproven result", f"{ctx}: integer solves {s3}, shares {v3.shares}")
                    elif act["act"] in ("fail", "limit") and not isinstance(v3, RuntimeError):
                        res.bad("wrong error", f"{ctx}: {type(v3).__name__}: {v3}")
                else:
                    if k3 != "ok":
                        res.bad("automatic method failed", f"{ctx}: {type(v3).__name__}: {v3}")
                        continue
                    self.judge(res, M, v3, ctx)
                    if v3.shares != plain.shares and not (len(s3) > 1 and s3[-1] is True):
                        res.bad("unproven result", f"{ctx}: {v3.shares} although the integer solver failed; greedy {plain.shares}")
            # after the failures the same request gives the same answer again
            k4, v4, _, _ = once({}, "retry")
            if k4 != clean[0] or (k4 == "ok" and (v4.shares != clean[1].shares or v4.leftover_cash != clean[1].leftover_cash)):
                res.bad("retry differs", f"{data}: {clean} vs {(k4, v4)}")
        return res.out()


CHECK = C07()
