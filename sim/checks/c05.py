"""C05: only solver-certified optima become portfolios, and reported numbers are true."""
import numpy as np

from .. import boot, common, faults, oracle, sched, seams, world
from ..common import Check, Result, rnd

OPS = ["variance_frontier", "min_variance", "cvar_frontier", "min_cvar", "robust_frontier", "robust_gamma", "optimisers", "optimisers"]


SCALES = [1.0, 1.0, 1.0, 0.1, 0.01, 0.003]      # of the data: from yearly down to intraday returns


class Watch:
    """Records every solver call of an operation: status and leading variables."""

    def __init__(self, n):
        self.n, self.calls = n, []

    def __call__(self, ts, cls, name, a, k, res):
        if cls != "solver":
            return
        if isinstance(res, BaseException):
            self.calls.append((name, "raised", None))
            return
        x = res.get("x")
        self.calls.append((name, res.get("status"), None if x is None else np.array(x, float).ravel()[: self.n]))

    def source(self, w):
        """'optimal', 'uncertified' or 'unknown origin' for returned weights w."""
        hit = set()
        for name, status, x in self.calls:
            if x is None or x.size != w.size:
                continue
            for v in (x, x / x.sum() if abs(x.sum()) > 1e-12 else x):
                if np.all(np.isfinite(v)) and np.max(np.abs(v - w)) <= 1e-7 * (1 + np.max(np.abs(w))):
                    hit.add(status)
        if "optimal" in hit:
            return "optimal"
        return "uncertified" if hit else "unknown"

    def all_optimal(self):
        return all(s == "optimal" for _, s, _ in self.calls)


class Judge:
    """Checks of one returned portfolio set against the reference problem."""

    def __init__(self, P, res, watch, ctx):
        self.P, self.res, self.watch, self.ctx = P, res, watch, ctx

    def bad(self, key, msg):
        self.res.bad(key, f"{self.ctx}: {msg}")

    def basic(self, w):
        w = np.asarray(w, float).ravel()
        if w.size != self.P.n or not np.all(np.isfinite(w)):
            self.bad("weights malformed", f"{w}")
            return None
        v = self.P.violation(w)
        if v > 5e-6:
            self.bad("constraint broken", f"by {v:.3g}; weights {np.round(w, 5)}")
        src = self.watch.source(w)
        if src == "uncertified":
            self.bad("uncertified weights", f"weights {np.round(w, 5)} come from a solver call that was not declared optimal: "
                     f"{[(c[0].rsplit('.', 1)[-1], c[1]) for c in self.watch.calls]}")
        self.res.count("portfolios_judged")
        self.res.count("source_" + src)
        return w

    def close(self, what, got, want, rtol=1e-8, atol=1e-12):
        got = float(got)
        # exp(x) - 1 of a small x loses digits in the conversion from logarithmic returns
        rtol += 1e-15 / max(float(np.min(np.diag(self.P.S_rep))), 1e-12) if self.P.S_rep is not None else 0.0
        if not abs(got - want) <= atol + rtol * abs(want):
            self.bad("reported " + what, f"reported {got!r}, recomputed {want!r}")

    def target(self, w, mean, t):
        if t is not None and float(mean @ w) < t - 2e-6 * np.max(np.abs(mean)):
            self.bad("target missed", f"return {float(mean @ w):.8g} < target {t:.8g}")

    def optimal(self, what, f, ref, tol):
        if ref is None or isinstance(ref, str):
            self.res.count("reference_unavailable")
            return
        self.res.count("optimality_checked")
        if f > ref + tol:
            self.bad("not optimal", f"{what} objective {f:.10g}, reference optimum {ref:.10g}")

    def mv(self, w, t):
        f = self.P.f_mv(w)
        self.frontier_point("variance", f, self.P.ref_mv, t, self.P.mu, 1e-6 * np.max(np.diag(self.P.S)) + 2e-5 * f)

    def cvar(self, w, alpha, t):
        f = self.P.f_cvar(w, alpha)
        self.frontier_point("CVaR", f, lambda q: self.P.ref_cvar(alpha, q), t, self.P.p @ self.P.R,
                            2e-6 * np.max(np.abs(self.P.R)) + 1e-6 * abs(f))

    def frontier_point(self, what, f, ref, t, mean, tol):
        """Optimality given the solver's tolerance on the return target, which can be steep to climb."""
        lo = ref(t)
        if t is not None and isinstance(lo, float) and f > lo + tol:
            lo = ref(t + 3e-7 * np.max(np.abs(mean)))
        self.optimal(what, f, lo, tol)

    def columns(self, W, num, mean, one):
        """Common frontier structure; `one` judges a single column at a return level."""
        W = np.asarray(W, float)
        if W.ndim != 2 or W.shape[0] != self.P.n:
            self.bad("weights malformed", f"shape {W.shape}")
            return
        hi = self.P.max_return(mean)
        r = mean @ W
        sc = np.max(np.abs(mean))
        if W.shape[1] != num and not (W.shape[1] == 1 and hi is not None and np.isclose(r[0], hi, atol=1.1e-8)):
            self.bad("frontier incomplete", f"{W.shape[1]} columns of {num}")
            return
        for j in range(W.shape[1]):
            w = self.basic(W[:, j])
            if w is None:
                return
            one(w, None if j == 0 else min(float(r[j]), hi if hi is not None else np.inf))
        if W.shape[1] > 1 and hi is not None:
            grid = np.linspace(r[0], hi, num)
            if np.max(grid - r) > 5e-6 * sc:
                self.bad("target missed", f"frontier returns {r}, grid {grid}")


class C05(Check):
    id = "C05"
    n_quick = 1400
    n_thorough = 24000
    rule = ("one case = one data world and two optimisation requests, each run clean, under planned solver failures "
            "(statuses, starved iterations, exceptions) and with every solver call of the request failing; every returned column is "
            "judged; non-trivial when a fault fired; distinct by (operation, outcome, fired faults, solver statuses)")
    sig_measure = "sequence of (operation, outcome, fired fault labels, solver statuses seen)"

    def gen(self, rng, i, tier):
        cfg = world.gen_cfg(rng)
        cfg["k"] = rng.choice(SCALES)
        ops = []
        for _ in range(2):
            n = rng.choice(OPS)
            ops.append({"op": n, "p": world.OPS[n].gen(rng, cfg)})
        return {"cfg": cfg, "seed": rng.randrange(1 << 30), "ops": ops}

    def shrink(self, case):
        yield from common.shrink_ops(case)

    # -- the reference problem of one request -----------------------------------------
    def problem(self, x, spec):
        p = spec["p"]
        if spec["op"] != "optimisers":
            return oracle.wrapper_problem(x, p)
        d = dict(mu=x.mu0, S=x.spd0)
        T = x.cfg["T"]
        if p["k"] == "cvar":
            d.update(R=x.R0, p=x.p0 if x.p0 is not None else np.full(T, 1.0 / T))
        if p["k"] in ("rob", "gamma"):
            d.update(unc=x.spd0 / 10)
        if p["costs"] and p["k"] in ("mv", "cvar", "rob"):
            n = x.cfg["N"]
            d["w0"] = np.full(n, 1.0 / n)
            if p["k"] == "mv":
                d["impact"] = np.full(n, 0.2) * float(np.mean(np.diag(x.cov0)))
            else:
                d["prop"] = np.full(n, 0.02) * float(np.mean(np.abs(x.mu0)))
        return oracle.Problem(x.cfg["N"], kind=p["c"], **d)

    def target_of(self, x, spec):
        p = spec["p"]
        if spec["op"] in ("min_variance", "min_cvar"):
            return world.ret_level(x, p["q"])
        return None

    def judge(self, x, spec, args, value, J):
        P, p, op = J.P, spec["p"], spec["op"]
        # a failed factorisation is retried with a documented diagonal jitter (1e-12, then 1e-11)
        jit = 2.2e-11 if "linalg" in J.ctx else 0.0
        rob_tol = lambda w, lam: self.rob_tol(P, w, lam) + max(1.0, lam) * jit / max(P.radius(w), 1e-9)

        def radius(got, w, cap=np.inf):
            want = min(P.radius(w) ** 2, cap) if cap < np.inf else P.radius(w)
            if jit and (got >= want - 1e-6 * want) and (got - want <= jit * (w @ w) if cap < np.inf else got ** 2 - want ** 2 <= jit * (w @ w)):
                return
            J.close("risk", got, want, rtol=1e-6)

        if op == "min_variance":
            w = J.basic(value[0])
            if w is None:
                return
            t = self.target_of(x, spec)
            J.target(w, P.mu, t)
            J.mv(w, t)
            J.close("return", value[1], float(P.mu_rep @ w))
            J.close("risk", value[2], float(np.sqrt(w @ P.S_rep @ w)))
        elif op == "min_cvar":
            w = J.basic(value[0])
            if w is None:
                return
            t = self.target_of(x, spec)
            J.target(w, P.p @ P.R, t)
            J.cvar(w, p["a"], t)
            J.close("return", value[1], float(P.mu_rep @ w))
            J.close("risk", value[2], oracle.tail_mean(P.R @ w, P.p, p["a"]))
        elif op == "variance_frontier":
            J.columns(value.weights, p["n"], P.mu, J.mv)
            for j in range(value.weights.shape[1]):
                w = value.weights[:, j]
                J.close("return", value.returns[j], float(P.mu_rep @ w))
                J.close("risk", value.risks[j], float(np.sqrt(w @ P.S_rep @ w)))
        elif op == "cvar_frontier":
            J.columns(value.weights, p["n"], P.mu, lambda w, t: J.cvar(w, p["a"], t))
            raw = [v for k, v in (value.alternate_risks or {}).items() if "raw" in k]
            for j in range(value.weights.shape[1]):
                w = value.weights[:, j]
                J.close("return", value.returns[j], float(P.mu_rep @ w))
                if raw:
                    J.close("risk", raw[0][j], oracle.tail_mean(P.R @ w, P.p, p["a"]))
        elif op == "robust_frontier":
            W = value.weights
            lams = sorted(p["ls"]) if p["ls"] is not None else list(np.linspace(0, p["ml"], p["n"]))
            if W.shape[1] != len(lams) or value.metadata is None or len(value.metadata) != len(lams):
                J.bad("frontier incomplete", f"{W.shape[1]} columns, {len(value.metadata or [])} metadata entries for {len(lams)} penalties")
                return
            if not np.allclose(sorted(m["lambda"] for m in value.metadata), lams):
                J.bad("reported lambda", f"{value.metadata} for {lams}")
            for j in range(W.shape[1]):
                w = J.basic(W[:, j])
                if w is None:
                    return
                lam = value.metadata[j]["lambda"]
                J.optimal(f"robust (lambda={lam:g})", P.f_rob(w, lam), P.ref_rob(lam), rob_tol(w, lam))
                J.close("return", value.returns[j], float(P.mu_rep @ w))
                radius(value.risks[j], w)
        elif op == "robust_gamma":
            w = J.basic(value[0])
            if w is not None:
                self.gamma(J, w, args["gm"], args["gs"], jit)
                ret = float(value[1])
                if not any(abs(ret - float(m @ w)) <= 1e-8 * abs(ret) + 1e-12 for m in (P.mu, P.mu_rep)):
                    J.bad("reported return", f"reported {ret!r}, recomputed {float(P.mu @ w)!r}")
                radius(value[2], w, args["gs"])
        elif op == "optimisers":
            k = p["k"]
            if k == "sharpe":
                w = J.basic(value.weights)
                if w is not None:
                    ref = P.ref_sharpe(args["rf"])
                    if ref is not None:
                        s = float((P.mu - args["rf"]) @ w) / np.sqrt(w @ P.S @ w)
                        J.optimal("negative Sharpe", -s, -ref, 2e-4 * abs(ref))
                    J.close("return", value.nominal_return, float(P.mu @ w))
                    J.close("risk", value.risk, float(np.sqrt(w @ P.S @ w)))
            elif k in ("mv", "cvar"):
                w = J.basic(value[0])
                if w is not None:
                    J.target(w, P.mu, args["t"])
                    (J.mv(w, args["t"]) if k == "mv" else J.cvar(w, 0.1, args["t"]))
                J.columns(value[1], 3, P.mu, J.mv if k == "mv" else (lambda w, t: J.cvar(w, 0.1, t)))
            elif k == "rob":
                items = [(value[0].weights, value[0].nominal_return, value[0].risk, 0.7)]
                rr, kk, W = value[1]
                if W.shape[1] != 3:
                    J.bad("frontier incomplete", f"{W.shape[1]} columns of 3")
                    return
                items += [(W[:, j], rr[j], kk[j], lam) for j, lam in enumerate([0.0, 0.5, 1.0])]
                for wv, ret, risk, lam in items:
                    w = J.basic(wv)
                    if w is None:
                        return
                    J.optimal(f"robust (lambda={lam:g})", P.f_rob(w, lam), P.ref_rob(lam), rob_tol(w, lam))
                    J.close("return", ret, float(P.mu @ w))
                    radius(risk, w)
            else:
                w = J.basic(value.weights)
                if w is not None:
                    self.gamma(J, w, 1.0, float(np.trace(np.asarray(args["S"]))) / 20, jit)
                    J.close("return", value.nominal_return, float(P.mu @ w))
                    radius(value.risk, w)

    @staticmethod
    def rob_tol(P, w, lam):
        """Solver gap: relative, and in the units of the data."""
        return 2e-6 * (np.max(np.abs(P.mu)) + max(1.0, lam) * np.sqrt(np.max(np.diag(P.unc)))) + 1e-5 * abs(P.f_rob(w, lam))

    # -- unusable data ---------------------------------------------------------------------
    USED = {"sharpe": ["mu", "S", "rf", "con"], "mv": ["mu", "S", "t", "con", "kw"], "cvar": ["R", "p", "t", "con", "kw"],
            "rob": ["mu", "S", "con", "kw"], "gamma": ["mu", "S", "con"]}

    def poison(self, x, spec, args, r):
        """(arguments with one entry the problem uses not finite, description)"""
        a, op = dict(args), spec["op"]
        value = r.choice([np.nan, np.nan, np.inf, -np.inf])

        def spoil(v):
            v = np.array(v, dtype=float)
            v.flat[r.randrange(v.size)] = value
            return v
        if op == "optimisers":
            use = [k for k in self.USED[spec["p"]["k"]] if a[k] is not None and not (k == "kw" and not a["kw"])]
            k = r.choice(use)
            if k == "con":
                # (max_sharpe leaves out equalities with a right-hand side, with a warning)
                j = r.choice([j for j in range(4) if a["con"][j] is not None and not (spec["p"]["k"] == "sharpe" and j > 1)])
                if j == 1 and value == np.inf:      # no limit
                    value = np.nan
                a["con"] = tuple(spoil(v) if i == j else v for i, v in enumerate(a["con"]))
                k = "Ghab"[j]
            elif k == "kw":
                k = r.choice(sorted(a["kw"]))
                a["kw"] = dict(a["kw"], **{k: spoil(a["kw"][k])})
            elif k in ("t", "rf"):
                a[k] = value = np.nan
            elif k == "S":
                S = np.array(a[k], dtype=float)
                i, j = r.randrange(len(S)), r.randrange(len(S))
                S[i, j] = S[j, i] = value
                a[k] = S
            else:
                a[k] = spoil(a[k])
            return a, f"{k} {value}"
        use = [k for k in ("t", "al", "gm", "gs") if k in a] + ["costs"] * 2 + ["con"]
        k = r.choice(use)
        if k == "costs":
            n = x.cfg["N"]
            kind = "market_impact_costs" if "variance" in op else "proportional_costs"
            d = {"initial_weights": np.full(n, 1.0 / n), kind: np.full(n, 1e-4)}
            k = r.choice(sorted(d))
            d[k] = spoil(d[k])
            if op == "robust_gamma" or a["w"] is getattr(x, "_c").get("wrap_k"):
                return None, None
            a["kw"] = dict(a["kw"], costs=lambda: boot.LIB.portfolioapi.TransactionCosts(**d))
        elif k == "con":
            row = [1.0] + [0.0] * (x.cfg["N"] - 1)
            where = r.choice(["bounds", "row", "limit", "total"])
            if where == "bounds":
                c = {"long_only": False, "total_weight": 1.0, "bounds": {0: (0.0, np.nan)}}
            elif where == "row":
                c = {"long_only": True, "total_weight": 1.0, "additional_G_h": [([value] + row[1:], 0.9)]}
            elif where == "limit":
                c = {"long_only": True, "total_weight": 1.0, "additional_G_h": [(row, np.nan)]}
            else:
                c = {"long_only": True, "total_weight": value}
            a["kw"] = dict(a["kw"], constraints=c)
            k = where
        else:
            value = np.nan if k == "t" else value
            a[k] = value
        return a, f"{k} {value}"

    def unusable(self, res, x, spec, op, args, r):
        a, what = self.poison(x, spec, args, r)
        if a is None:
            return
        res.count("unusable_data")

        def go():
            b = dict(a)
            if "kw" in b and callable(b["kw"].get("costs")):
                b["kw"] = dict(b["kw"], costs=b["kw"]["costs"]())
            return op.run(b)
        with sched.Sim(seam_budget=400) as sim:
            kind, v = common.guarded(go)
        res.take(sim)
        res.sig(spec["op"], "unusable", what, kind)
        ctx = f"{spec['op']} with {what} params {spec['p']}"
        if kind == "ok":
            res.bad("unusable data accepted", f"{ctx}: {v}")
        elif not isinstance(v, (ValueError, RuntimeError, ArithmeticError)):
            res.bad("wrong error", f"{ctx}: {type(v).__name__}: {v}")

    def gamma(self, J, w, gm, gs, jit=0.0):
        P = J.P
        if P.radius(w) > np.sqrt(gs + 2 * jit) * (1 + 1e-5) + 2e-6 * np.sqrt(np.max(np.diag(P.unc))):
            J.bad("constraint broken", f"uncertainty radius {P.radius(w):.8g} above its cap {np.sqrt(gs):.8g}")
        J.optimal("robust gamma", P.f_rob(w, gm), P.ref_rob(gm, np.sqrt(gs)), 2 * self.rob_tol(P, w, gm) + 2 * max(1.0, gm) * jit / max(P.radius(w), 1e-9))

    def must(self, x, spec, args, P):
        """'solve', 'infeasible' or None (too close to call) for a run without faults."""
        op, p = spec["op"], spec["p"]
        t = self.target_of(x, spec)
        if op == "optimisers" and p["k"] in ("mv", "cvar"):
            t = args["t"]
        if t is not None:
            mean = P.mu if P.R is None or op == "min_variance" else P.p @ P.R
            hi = P.max_return(mean)
            if hi is None:
                return None
            m = 0.03 * np.max(np.abs(mean))
            return "solve" if t < hi - m else "infeasible" if t > hi + m else None
        if op == "robust_gamma" or (op == "optimisers" and p["k"] == "gamma"):
            gs = args["gs"] if op == "robust_gamma" else float(np.trace(np.asarray(args["S"]))) / 20
            lo = P.ref_rob(1e6)
            if lo is None or isinstance(lo, str):
                return None
            r = (lo + 0.0) / 1e6
            return "solve" if r < 0.9 * np.sqrt(gs) else "infeasible" if r > 1.2 * np.sqrt(gs) else None
        if op == "optimisers" and p["k"] == "sharpe":
            hi = P.max_return(P.mu)
            if hi is None:
                return None
            m = 0.02 * np.max(np.abs(P.mu))
            return "solve" if hi > args["rf"] + m and P.kind != 5 else "infeasible" if hi < args["rf"] - m and P.kind != 5 else None
        return "solve"

    def run(self, case):
        res = Result()
        x = world.Ctx(case["cfg"])
        infeasible = boot.LIB.optimization.InfeasibleOptimizationError
        for j, spec in enumerate(case["ops"]):
            pr = common.try_prepare(x, spec)
            if pr is None:
                continue
            op, args, cb = pr
            name = spec["op"]
            r = rnd(case["seed"], j)
            res.op(name if name != "optimisers" else "optimisers." + spec["p"]["k"])
            P = self.problem(x, spec)
            needs_infeasible = name in ("min_variance", "min_cvar") or (name == "optimisers" and spec["p"]["k"] == "sharpe")
            must = self.must(x, spec, args, P)

            def once(plan, how):
                sim = sched.Sim(plan, seam_budget=400)
                watch = Watch(P.n)
                sim.observers.append(watch)
                try:
                    with sim:
                        sim.begin_op(name)
                        kind, v = common.guarded(lambda: op.run(args))
                except sched.SimBudget as e:
                    res.take(sim)
                    res.bad("unbounded", f"{name} {how}: {e}; params {spec['p']}")
                    return None
                res.take(sim)
                ctx = f"{name} {how} params {spec['p']} fired {sim.fired}"
                res.sig(name, how, kind, sorted(sim.fired), sorted({c[1] for c in watch.calls}))
                res.note(name, how, "fired", sim.fired, "statuses", [c[1] for c in watch.calls], "->", kind if kind == "ok" else type(v).__name__)
                bad = [c for c in watch.calls if c[1] != "optimal"]
                if kind == "ok":
                    res.count("returned")
                    if must == "infeasible":
                        res.bad("impossible request granted", f"{ctx}: {v}")
                    self.judge(x, spec, args, v, Judge(P, res, watch, ctx))
                    if how == "all failing" and watch.calls and len(bad) == len(watch.calls):
                        res.bad("uncertified weights", f"{ctx}: a result although every solver call failed")
                else:
                    res.count("raised")
                    if common.is_injected(v):
                        return sim
                    if not isinstance(v, RuntimeError) and "Rank(" not in str(v):
                        res.bad("wrong error", f"{ctx}: {type(v).__name__}: {v}")
                    elif needs_infeasible and isinstance(v, RuntimeError) and not isinstance(v, infeasible) \
                            and not any("raise" in f for f in sim.fired):
                        res.bad("wrong error", f"{ctx}: {type(v).__name__} instead of an infeasibility error: {v}")
                    if must == "solve" and not sim.fired and not bad:
                        res.bad("solvable request refused", f"{ctx}: {type(v).__name__}: {v}")
                return sim

            clean = once({}, "clean")
            if clean is None:
                continue
            points = [q for q in clean.serial_ts.seam_list if q[0] == "solver"]
            others = [q for q in clean.serial_ts.seam_list if q[0] != "solver"]
            if not points:
                continue
            for m in range(3):
                once(common.keyed(common.plan_pick(r, points, r.choice([1, 1, 2, 3])), name), f"fault run {m}")
            act = {"act": "status", "status": r.choice(faults.STATUSES), "x": r.choice(["true", "poison", "garbage", "none", "nan"]),
                   "seed": r.randrange(1 << 30)} if r.random() < 0.8 else {"act": "raise", "exc": r.choice(["ArithmeticError", "ValueError"])}
            once({(name, "solver", "*"): act}, "all failing")
            # the first attempt at one solve fails, its retry is left alone
            k = r.randrange(len(points))
            once({(name, "solver", points[k][1]): {"act": "status", "status": "unknown", "x": "poison", "seed": r.randrange(1 << 30)}}, "one failing")
            self.unusable(res, x, spec, op, args, r)
            if others and r.random() < 0.3:
                once(common.keyed(common.plan_pick(r, others, 1), name), "linear algebra fault")
        return res.out()


CHECK = C05()
