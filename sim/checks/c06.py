"""C06: risk-parity return targets degrade boundedly and honestly."""
import numpy as np

from .. import common, faults, oracle, sched, world
from ..common import Check, Result, rnd
from .c05 import SCALES, Watch


class Judge:
    """Checks of one risk-parity portfolio and what was said about it."""

    def __init__(self, rp, mean_tol, res, watch, ctx):
        self.rp, self.P, self.res, self.watch, self.ctx, self.mt = rp, rp.P, res, watch, ctx, mean_tol

    def bad(self, key, msg):
        self.res.bad(key, f"{self.ctx}: {msg}")

    def weights(self, w):
        w = np.asarray(w, float).ravel()
        if w.size != self.P.n or not np.all(np.isfinite(w)):
            self.bad("weights malformed", f"{w}")
            return None
        v = self.rp.violation(w)
        if v > 5e-6:
            self.bad("constraint broken", f"by {v:.3g}; weights {np.round(w, 5)}")
        if self.watch.source(w) == "uncertified":
            self.bad("uncertified weights", f"{np.round(w, 5)} come from a solver call not declared optimal: {[(c[0][-6:], c[1]) for c in self.watch.calls]}")
        self.res.count("portfolios_judged")
        return w

    def same(self, what, got, want, rtol=1e-7, atol=1e-11):
        ok = got is None and want is None if got is None or want is None else np.allclose(got, want, rtol=rtol, atol=atol)
        if not ok:
            self.bad("untrue " + what, f"says {got!r}, is {want!r}")

    def optimal(self, w, lam, target):
        ref = self.rp.ref(lam, target)
        if ref is None or isinstance(ref, str):
            self.res.count("reference_unavailable")
            return
        self.res.count("optimality_checked")
        f = self.rp.value(np.clip(w, 0, None), lam)
        if f > ref + 2e-4 * np.sqrt(np.max(np.diag(self.P.S))):
            self.bad("not optimal", f"objective {f:.9g}, reference {ref:.9g} (lambda {lam}, target {target})")

    def pure(self, w):
        """Without active constraints pure risk parity is the risk-budgeting portfolio."""
        x = self.rp.pure()
        if self.rp.violation(x) < -1e-4 or (self.P.kind == 0 and np.min(x) > 1e-4):
            self.res.count("risk_parity_checked")
            if np.max(np.abs(w - x)) > 2e-3:
                self.bad("risk parity weights", f"{np.round(w, 5)}, risk-budgeting portfolio {np.round(x, 5)}")

    def target(self, w, lam, requested, effective, warning, lower, clean):
        """The applied target and what is said about the request."""
        mu = self.P.mu
        if requested is None:
            if effective is not None:
                self.bad("untrue target", f"nothing requested, target {effective} reported")
            if warning is not None:
                self.bad("untrue warning", f"nothing requested, warning {warning!r}")
            return
        hi = self.rp.max_return()
        if effective is None:
            if not warning:
                self.bad("silent fallback", f"requested {requested:.8g}, no target applied and no warning")
        else:
            r = float(mu @ w)
            if r < effective - self.mt:
                self.bad("target missed", f"effective target {effective:.9g}, weights return {r:.9g}")
            if hi is not None:
                tol = max(1e-8, 1e-3 * abs(hi))
                first = max(min(requested, hi - tol), lower)
                if effective > max(requested, lower) + 1e-9 + 1e-7 * abs(requested):
                    self.bad("target raised", f"requested {requested:.9g}, baseline {lower:.9g}, applied {effective:.9g}")
                if effective < lower - 1e-9 - 1e-6 * abs(lower):
                    self.bad("target below baseline", f"baseline {lower:.9g}, applied {effective:.9g}")
                if clean and abs(effective - first) > 1e-9 + 1e-5 * abs(first):
                    self.bad("target not applied", f"requested {requested:.9g}, reachable {hi:.9g}, applied {effective:.9g} though no solve failed")
        if clean and warning is not None:
            self.bad("untrue warning", f"no solve failed, warning {warning!r}")


class C06(Check):
    id = "C06"
    n_quick = 1100
    n_thorough = 14000
    bounded = True
    rule = ("one case = one data world and one risk-parity request (single, diagnostics or frontier), run clean, with the first 1-6 "
            "targeted solver calls failing, with random solver failures, with everything failing and with everything but the baseline "
            "failing; non-trivial when a fault fired; distinct by (request, outcome, faults, attempt count)")
    sig_measure = "sequence of (request kind, outcome, fired fault labels, solver call count, effective target kind)"

    def gen(self, rng, i, tier):
        cfg = world.gen_cfg(rng)
        cfg["k"] = rng.choice(SCALES)
        n = rng.choice(["rrp", "rrp_diag", "rrp_diag", "rrp_diag", "rrp_frontier"])
        p = world.OPS[n].gen(rng, cfg)
        if rng.random() < 0.1:
            p["c"] = 7
        if rng.random() < 0.15:
            p["c"] = 6
        return {"cfg": cfg, "seed": rng.randrange(1 << 30), "ops": [{"op": n, "p": p}]}

    def shrink(self, case):
        yield from common.shrink_ops(case)

    def judge(self, spec, args, v, rp, res, watch, ctx, clean):
        P, p, name = rp.P, spec["p"], spec["op"]
        J = Judge(rp, 3e-6 * np.max(np.abs(P.mu)), res, watch, ctx)
        k = args["k"]
        if name == "rrp_frontier":
            W, meta = np.asarray(v.weights, float), list(v.metadata or [])
            mults = np.linspace(1.0, max(1.01, p["mult"] if p["mult"] < 3 else 1.6), p["n"])
            want = len(mults) + (1 if p["rp"] else 0)
            if W.shape[1] != want or len(meta) != want:
                J.bad("frontier incomplete", f"{W.shape[1]} columns, {len(meta)} metadata entries, {want} expected")
                return ()
            base = None
            kinds = []
            for j in range(want):
                w = J.weights(W[:, j])
                if w is None:
                    return ()
                m = meta[j]
                J.same("return", v.returns[j], float(P.mu_rep @ w))
                J.same("risk", v.risks[j], float(np.sqrt(w @ P.S_rep @ w)))
                anchor = p["rp"] and j == 0
                lam = 0.0 if anchor else k["lambda_reg"]
                J.same("lambda", m["lambda_reg"], lam)
                if anchor:
                    base = w
                    J.pure(w)
                    J.same("multiplier", m["target_multiplier"], None)
                    J.target(w, 0.0, m["requested_target"], m["effective_target"], m["solver_warning"], 0.0, clean)
                else:
                    J.same("multiplier", m["target_multiplier"], float(mults[j - (1 if p["rp"] else 0)]))
                    lower = max(float(P.mu_rep @ base), 0.0) if base is not None else None
                    if lower is None:        # the anchor is not shown: the request says what it was
                        lower = float(m["requested_target"]) / m["target_multiplier"]
                    J.same("requested target", m["requested_target"], m["target_multiplier"] * lower)
                    J.target(w, lam, m["requested_target"], m["effective_target"], m["solver_warning"], lower, clean)
                    kinds.append("none" if m["effective_target"] is None else "set")
                J.optimal(w, lam, m["effective_target"])
                J.same("objective", m["objective"], m["psi"] - m["gamma"])
                if abs(m["objective"] - rp.value(np.clip(w, 0, None), lam)) > 1e-3 * np.sqrt(np.max(np.diag(P.S))):
                    J.bad("untrue objective", f"column {j}: says {m['objective']}, is {rp.value(np.clip(w, 0, None), lam)}")
            return tuple(kinds)
        w = J.weights(v[0])
        if w is None:
            return ()
        J.same("return", v[1], float(P.mu_rep @ w))
        J.same("risk", v[2], float(np.sqrt(w @ P.S_rep @ w)))
        lam = k["lambda_reg"]
        if name == "rrp":
            if lam == 0.0 and k.get("return_target") is None and k.get("target_multiplier") is None:
                J.pure(w)
                J.optimal(w, 0.0, None)
            return ()
        d = v[3]
        base = J.weights(d["risk_parity_weights"])
        if base is None:
            return ()
        J.pure(base)
        J.optimal(base, 0.0, None)
        J.same("risk parity return", d["risk_parity_return"], float(P.mu_rep @ base))
        lower = max(float(P.mu_rep @ base), 0.0)
        plain = lam == 0.0 and k.get("return_target") is None and k.get("target_multiplier") is None
        req = None if plain else float(k["return_target"]) if k.get("return_target") is not None else k["target_multiplier"] * lower
        J.same("requested target", d["requested_target"], req)
        J.same("lambda", d["lambda_reg"], lam)
        eff = d["target_return"]
        J.target(w, lam, req, eff, d["solver_warning"], lower, clean)
        moved = eff is not None and req is not None and abs(eff - req) > 1e-9 + 1e-7 * abs(req)
        still = eff is None or req is None or abs(eff - req) <= 1e-11 + 1e-9 * abs(req)
        if (moved and not d["target_clipped"]) or (still and d["target_clipped"]):
            J.bad("untrue clipping flag", f"requested {req}, applied {eff}, target_clipped={d['target_clipped']}")
        if eff is not None:
            hi = rp.max_return()
            if hi is not None:
                J.same("max return", d["max_feasible_return"], hi, rtol=1e-5, atol=1e-6 * np.max(np.abs(P.mu)))
        J.optimal(w, lam if not plain else 0.0, eff)
        J.same("achieved return", d["achieved_return"], float(P.mu_rep @ w))
        J.same("variance", d["portfolio_variance"], float(w @ P.S_rep @ w))
        mr = P.S @ w
        sc = np.max(np.abs(mr)) + 1e-12
        J.same("marginal risk", np.asarray(d["marginal_risk"], float), mr, rtol=1e-3, atol=1e-3 * sc)
        J.same("risk contributions", np.asarray(d["risk_contributions"], float), w * np.asarray(d["marginal_risk"], float))
        J.same("risk shares", np.asarray(d["risk_contributions_pct"], float), 100 * np.asarray(d["risk_contributions"], float) / max(d["portfolio_variance"], 1e-300), rtol=1e-6)
        J.same("objective", d["objective"], d["psi"] - d["gamma"])
        f = rp.value(np.clip(w, 0, None), lam)
        if abs(d["objective"] - f) > 1e-3 * np.sqrt(np.max(np.diag(P.S))):
            J.bad("untrue objective", f"says {d['objective']}, is {f}")
        return ("plain" if plain else "none" if eff is None else "moved" if moved else "set",)

    def run(self, case):
        res = Result()
        x = world.Ctx(case["cfg"])
        for j, spec in enumerate(case["ops"]):
            pr = common.try_prepare(x, spec)
            if pr is None:
                continue
            op, args, cb = pr
            name, p = spec["op"], spec["p"]
            r = rnd(case["seed"], j)
            res.op(name)
            P = oracle.wrapper_problem(x, p)
            bud = np.asarray(args["k"]["risk_budgets"], float) if p["bud"] else None
            rp = oracle.RiskParity(P, bud)
            allowed = 1 + 17 * (p["n"] + 1 if name == "rrp_frontier" else 1)

            def once(plan, how, must=None):
                sim = sched.Sim(plan, seam_budget=40 * allowed)
                watch = Watch(P.n)
                sim.observers.append(watch)
                try:
                    with sim:
                        sim.begin_op(name)
                        kind, v = common.guarded(lambda: op.run(args))
                except sched.SimBudget as e:
                    res.take(sim)
                    res.bad("unbounded", f"{name} {how}: {e}; params {p}")
                    return None
                res.take(sim)
                ctx = f"{name} {how} params {p} fired {sim.fired}"
                ncalls = len(watch.calls)
                res.count("solver_calls", ncalls)
                if ncalls > 2 * allowed + 4:
                    res.bad("unbounded", f"{ctx}: {ncalls} solver calls for at most 8 attempts per target")
                bad = [c for c in watch.calls if c[1] != "optimal"]
                got = ()
                if kind == "ok":
                    got = self.judge(spec, args, v, rp, res, watch, ctx, clean=not bad)
                    if watch.calls and len(bad) == ncalls:
                        res.bad("uncertified weights", f"{ctx}: a result although every solver call failed")
                    if must == "progress" and name == "rrp_diag" and bad and v[3]["target_return"] is not None and not sim_clipped(v[3]):
                        hi = rp.max_return()
                        req, low = v[3]["requested_target"], max(v[3]["risk_parity_return"], 0.0)
                        if hi is not None and req is not None and low + 0.01 * abs(hi) < req < hi - 0.01 * abs(hi):
                            if v[3]["target_return"] > req - 1e-9:
                                res.bad("no progress", f"{ctx}: first attempt failed, target applied {v[3]['target_return']} is still the request {req}")
                else:
                    if must == "value" or must == "progress":
                        if not (isinstance(v, ValueError) and not sim.fired):
                            res.bad("gave up early", f"{ctx}: {type(v).__name__}: {v} although later attempts would have succeeded")
                    if not common.is_injected(v) and not isinstance(v, RuntimeError) and \
                            not (isinstance(v, (ValueError, ArithmeticError)) and (not sim.fired or "raise" in str(sim.fired))):
                        res.bad("wrong error", f"{ctx}: {type(v).__name__}: {v}")
                res.sig(name, p["mode"], how, kind, sorted(sim.fired), ncalls, got)
                res.note(name, how, "fired", sim.fired, "calls", ncalls, "->", kind, got if kind == "ok" else type(v).__name__)
                return sim, watch, kind, v

            def sim_clipped(d):
                return False

            out = once({}, "clean")
            if out is None:
                continue
            sim, watch, kind, v = out
            points = [q for q in sim.serial_ts.seam_list if q[0] == "solver"]
            if kind == "exc":
                ok_none = p["mode"] == "none" and p["lam"] > 0 and name != "rrp_frontier" and isinstance(v, ValueError)
                if not ok_none and all(c[1] == "optimal" for c in watch.calls):
                    res.bad("refused", f"{name} params {p}: {type(v).__name__}: {v}")
                if not points or ok_none:
                    continue
            status = lambda: {"act": "status", "status": r.choice(faults.STATUSES), "x": r.choice(["true", "poison", "garbage", "none", "nan"]), "seed": r.randrange(1 << 30)}
            naturally_fine = kind == "ok" and all(c[1] == "optimal" for c in watch.calls)
            targeted = naturally_fine and (name == "rrp_frontier" or not (p["lam"] == 0.0 and p["mode"] in ("none", "rp")))
            for m in sorted(set([1, r.choice([1, 2, 3, 4, 5, 6])])):
                once({(name, "solver", q): status() for q in range(1, 1 + m)}, f"first {m} targeted calls failing", "progress" if targeted else None)
            if targeted:
                k = r.randint(1, max(1, len(points) - 1))
                once({(name, "solver", k): status()}, f"call {k} failing", "value")
            for m in range(2):
                once(common.keyed(common.plan_pick(r, points, r.choice([1, 2, 3, 6])), name), f"random faults {m}")
            once({(name, "solver", "*"): status()}, "all failing")
            a = status()
            plan = {(name, "solver", q): a for q in range(1, 400)}
            once(plan, "all but the baseline failing")
        return res.out()


CHECK = C06()
