"""C08: a views posterior honours every view or an error is raised."""
import numpy as np

from .. import boot, common, faults, sched, world
from ..common import Check, Result, rnd

KINDS = ["mean", "mean", "pair", "vol", "var", "corr", "skew", "quantile", "cvar"]
ORDER = ["mean", "vol", "var", "skew", "corr", "quantile", "cvar"]
STRENGTH = [0.02, 0.05, 0.1, 0.1, 0.2, 0.3, 0.6, 1.5, 4.0, 30.0]


# -- an independent entropy pooling: Newton on the normalised dual -------------------
def solve(p, eq, ub):
    """Minimum relative entropy q with rows eq [(row, rhs)] equal and ub rows at most.  None if not certified."""
    rows = np.array([r for r, _ in eq] + [r for r, _ in ub]).reshape(-1, p.size)
    if rows.shape[0] == 0:
        return p.copy()
    rhs = np.array([b for _, b in eq] + [b for _, b in ub], float)
    m = len(eq)
    sd = np.maximum(rows.std(1), 1e-300)
    mid = rows @ p
    A, b = (rows - mid[:, None]) / sd[:, None], (rhs - mid) / sd
    lam = np.zeros(len(b))
    lp = np.log(p)

    def f(lam):
        e = lp - A.T @ lam
        mx = e.max()
        z = np.exp(e - mx)
        s = z.sum()
        return mx + np.log(s) + lam @ b, z / s

    val, q = f(lam)
    for _ in range(300):
        g = b - A @ q
        fixed = np.zeros(len(b), bool)
        fixed[m:] = (lam[m:] <= 0) & (g[m:] > 0)
        res = np.where(fixed, 0.0, g)
        if np.max(np.abs(res)) < 1e-10:
            break
        fr = ~fixed
        Af = A[fr]
        d = Af - (Af @ q)[:, None]
        H = (d * q) @ d.T
        step = np.zeros(len(b))
        step[fr] = -np.linalg.lstsq(H + 1e-12 * np.eye(H.shape[0]), g[fr], rcond=None)[0]
        t = 1.0
        for _ in range(40):
            new = lam + t * step
            new[m:] = np.maximum(new[m:], 0.0)
            v2, q2 = f(new)
            if v2 <= val + 1e-4 * g @ (new - lam) or np.max(np.abs(new - lam)) < 1e-14:
                break
            t *= 0.5
        if abs(v2 - val) < 1e-16 and np.max(np.abs(new - lam)) < 1e-13:
            lam, val, q = new, v2, q2
            break
        lam, val, q = new, v2, q2
        if np.max(np.abs(lam)) > 1e4:
            return None
    g = b - A @ q
    bad = np.max(np.abs(g[:m])) if m else 0.0
    if len(b) > m:
        bad = max(bad, np.max(np.maximum(-g[m:], 0)), np.max(np.abs(np.minimum(lam[m:], np.maximum(g[m:], 0)))))
    return q if bad < 1e-7 else None


def shortfall(p, eq, ub):
    """Smallest scaled miss with which any probabilities could meet the rows (0 when they can be met)."""
    import scipy.optimize as so
    S = p.size
    rows, rhs = [], []
    for r, b in eq:
        s = max(np.max(np.abs(r)), 1e-300)
        rows += [r / s, -r / s]
        rhs += [b / s, -b / s]
    for r, b in ub:
        s = max(np.max(np.abs(r)), 1e-300)
        rows.append(r / s)
        rhs.append(b / s)
    if not rows:
        return 0.0
    res = so.linprog(np.r_[np.zeros(S), 1.0], A_ub=np.c_[np.array(rows), -np.ones(len(rows))], b_ub=rhs,
                     A_eq=np.r_[np.ones(S), 0.0][None], b_eq=[1.0], bounds=[(0, None)] * (S + 1), method="highs")
    return float(res.fun) if res.success else None


def cvar_of(x, q, gamma):
    o = np.argsort(x)
    c = np.minimum(np.cumsum(q[o]), gamma)
    w = np.diff(np.r_[0.0, c])
    return float(w @ x[o] / gamma)


class Views:
    """The stated views, kept apart from the form they are passed in."""

    def __init__(self, x, case):
        self.case, self.x = case, x
        self.R = np.array(x.R0, float)
        S, N = self.R.shape
        self.p = np.array(x.p0, float) if (x.p0 is not None and case["usep"]) else np.full(S, 1.0 / S)
        self.p = self.p / self.p.sum()
        mu = self.p @ self.R
        var = self.p @ (self.R - mu) ** 2
        sd = np.sqrt(var)
        self.views = {k: {} for k in ORDER}       # kind -> {key: (specs, extra)}
        C = (self.R - mu).T @ ((self.R - mu) * self.p[:, None])
        self.kw = {}
        lab = x.asset
        for v in case["views"]:
            i, d = v["i"] % N, v["d"]
            j = (i + 1 + v["j"] % (N - 1)) % N if N > 1 else i
            k = v["kind"]
            if N == 1:
                k = {"pair": "mean", "corr": "var"}.get(k, k)
            if k == "mean":
                self.put("mean", (i,), v, mu[i] + d * sd[i], 0.2 * abs(d) * sd[i])
            elif k == "pair":
                self.put("mean", (i, j), v, mu[i] - mu[j] + d * 0.7 * sd[i], 0.2 * abs(d) * sd[i])
            elif k == "vol":
                self.put("vol", (i,), v, sd[i] * max(1 + 0.5 * d, 0.02), 0.1 * abs(d) * sd[i])
            elif k == "var":
                self.put("var", (i,), v, var[i] * max(1 + 0.7 * d, 0.02), 0.1 * abs(d) * var[i])
            elif k == "corr":
                c = C[i, j] / (sd[i] * sd[j])
                t = float(np.clip(c + d, -0.98, 0.98))
                if (j, i) not in self.views["corr"]:
                    self.put("corr", (i, j), v, t, min(0.1 * abs(d), 0.98 - t))
            elif k == "skew":
                s = float(self.p @ ((self.R[:, i] - mu[i]) / sd[i]) ** 3)
                self.put("skew", (i,), v, s + d, 0.2 * abs(d))
            elif k == "quantile":
                lv = float(np.sort(self.R[:, i])[min(S - 2, max(1, int(S * v["q"])))])
                pr = float(self.p @ (self.R[:, i] <= lv))
                t = float(np.clip(pr * (1 + d), 0.01, 0.97))
                if t + 0.02 < 1:
                    self.put("quantile", (i,), v, t, 0.02, lv)
            elif k == "cvar":
                g = v["g"]
                c = cvar_of(self.R[:, i], self.p, g)
                self.views["cvar"].setdefault((i,), ((c + 0.4 * d * sd[i], g), None))
        self.rank = None
        if case["rank"] and N >= 2:
            o = np.argsort(-mu)[: min(3, N)]
            if case["rank"] == "rev":
                o = o[::-1]
            self.rank = [int(q) for q in o]
            for a, b in zip(self.rank[:-1], self.rank[1:]):
                if (a, b) not in self.views["mean"]:
                    self.views["mean"][(a, b)] = ([(">=", 0.0)], "rank")
        V = boot.LIB.views

        def key(t):
            return lab(t[0]) if len(t) == 1 else (lab(t[0]), lab(t[1]))
        for k, name in (("mean", "mean_views"), ("vol", "vol_views"), ("var", "var_views"), ("skew", "skew_views"), ("corr", "corr_views")):
            d = {key(t): self.spell(V, s, e, case) for t, (s, e) in self.views[k].items() if e != "rank"}
            if d:
                self.kw[name] = d
        if self.views["quantile"]:
            self.kw["quantile_views"] = {key(t): (e, self.spell(V, s, None, case)) for t, (s, e) in self.views["quantile"].items()}
        if self.views["cvar"]:
            self.kw["cvar_views"] = {key(t): s for t, (s, e) in self.views["cvar"].items()}
        if self.rank:
            self.kw["rank_mean"] = [lab(q) for q in self.rank]
        if case["seq"]:
            self.kw["sequential"] = True
        # the vector form: one value per asset
        for k, name in (("mean", "mean_views"), ("vol", "vol_views")):
            if case["vector"] and set(self.views[k]) == {(i,) for i in range(N)} and all(s[0][0] == "==" and len(s) == 1 for s, _ in self.views[k].values()):
                self.kw[name] = np.array([self.views[k][(i,)][0][0][1] for i in range(N)])
        self.R = self.R.astype(float)

    def put(self, kind, key, v, t, width, extra=None):
        t, width = float(t), float(max(width, 0.0))
        op = v["op"]
        if op == "between":
            specs = [(">=", t - width), ("<=", t + width)]
        else:
            specs = [(op, t)]
        if kind in ("vol",):
            specs = [(o, max(q, 1e-9)) for o, q in specs]
        if kind == "var":
            specs = [(o, max(q, 0.0)) for o, q in specs]
        self.views[kind].setdefault(key, (specs, extra))

    @staticmethod
    def spell(V, specs, e, case):
        helper = case["helper"]
        if len(specs) == 2:
            lo, hi = specs[0][1], specs[1][1]
            return V.between(lo, hi) if helper else ("between", lo, hi)
        op, t = specs[0]
        if op == "==":
            return t if case["bare"] else ("==", t)
        if helper:
            return {">=": V.at_least, "<=": V.at_most, ">": V.above, "<": V.below}[op](t)
        return [op, t] if case["bare"] else (op, t)

    def rows(self, kind, mu, var):
        eq, ub = [], []
        R = self.R
        for key, (specs, extra) in self.views[kind].items():
            i = key[0]
            j = key[-1]
            for op, t in specs:
                if kind == "mean":
                    row, raw = (R[:, i] if len(key) == 1 else R[:, i] - R[:, j]), t
                elif kind == "vol":
                    row, raw = R[:, i] ** 2, t * t + mu[i] ** 2
                elif kind == "var":
                    row, raw = R[:, i] ** 2, t + mu[i] ** 2
                elif kind == "skew":
                    row, raw = R[:, i] ** 3, t * var[i] ** 1.5 + 3 * mu[i] * var[i] + mu[i] ** 3
                elif kind == "corr":
                    row, raw = R[:, i] * R[:, j], t * np.sqrt(var[i] * var[j]) + mu[i] * mu[j]
                else:
                    row, raw = (R[:, i] <= extra).astype(float), t
                if op == "==":
                    eq.append((row, raw))
                elif op in ("<=", "<"):
                    ub.append((row, raw))
                else:
                    ub.append((-row, -raw))
        return eq, ub

    def reference(self):
        """(rows that must hold, reference posterior or None, CVaR views that must hold, 'impossible' or None)."""
        V, p = self.views, self.p

        def mom(q):
            mu = q @ self.R
            return mu, q @ (self.R - mu) ** 2
        mu, var = mom(p)
        q = p
        if not self.case["seq"]:
            if V["mean"] and any(V[k] for k in ("vol", "var", "skew", "corr")):
                e, u = self.rows("mean", mu, var)
                q1 = solve(p, e, u)
                if q1 is None:
                    return None, None, None, self.hopeless(p, e, u)
                mu, var = mom(q1)
            eq, ub = [], []
            for k in ORDER[:-1]:
                e, u = self.rows(k, mu, var)
                eq, ub = eq + e, ub + u
            q = solve(p, eq, ub)
            return (eq, ub), (q if not V["cvar"] else None), dict(V["cvar"]), self.hopeless(p, eq, ub) if q is None else None
        last = ([], [])
        for k in ORDER[:-1]:
            if not V[k]:
                continue
            e, u = self.rows(k, mu, var)
            q2 = solve(q, e, u)
            last = (e, u)
            if q2 is None:
                h = self.hopeless(q, e, u)
                return (None, None, None, h)
            q = q2
            mu, var = mom(q)
        if V["cvar"]:
            t = list(V["cvar"])[-1]
            return ([], []), None, {t: V["cvar"][t]}, None
        return last, q, {}, None

    def exact(self):
        """The rows of the stated views that do not depend on a linearisation point."""
        V = self.views
        kinds = ["mean", "quantile"]
        if self.case["seq"]:
            last = [k for k in ORDER if V[k]][-1:]
            kinds = [k for k in kinds if k in last]
        eq, ub = [], []
        for k in kinds:
            e, u = self.rows(k, None, None)
            eq, ub = eq + e, ub + u
        return eq, ub

    @staticmethod
    def hopeless(p, e, u):
        s = shortfall(p, e, u)
        return "impossible" if s is not None and s > 4e-3 else None


class C08(Check):
    id = "C08"
    n_quick = 1300
    n_thorough = 30000
    rule = ("one case = one scenario panel, prior and set of views (kinds, operators, strengths up to contradictory, sequential or not), run "
            "clean and with the dual solver failing, stalling, running out or returning a wrong point at seeded calls; non-trivial when a fault "
            "fired; distinct by (view kinds and operators, mode, outcome, faults)")
    sig_measure = "sequence of (view kinds, operators, mode, outcome, fired fault labels)"

    def gen(self, rng, i, tier):
        cfg = world.gen_cfg(rng, t=(25, 60))
        if rng.random() < 0.1:
            cfg["N"] = 1          # a single risk driver
        n = rng.choice([0, 1, 1, 2, 2, 3, 4])
        vs = [self.one(rng) for _ in range(n)]
        if rng.random() < 0.15:      # contradictory on purpose
            v = dict(rng.choice(vs)) if vs else self.one(rng)
            vs = [v, dict(self.one(rng), kind="quantile", i=v["i"], q=0.9, d=-0.95, op="==")]
        vector = rng.random() < 0.15
        if vector:
            k = rng.choice(["mean", "vol"])
            vs = [dict(self.one(rng), kind=k, i=q, op="==", d=rng.choice([-0.1, -0.05, 0.05, 0.1])) for q in range(cfg["N"])]
        return {"cfg": cfg, "views": vs, "seq": rng.random() < 0.35, "usep": rng.random() < 0.7, "vector": vector,
                "rank": rng.choice([None] * 6 + ["fwd", "rev"]), "helper": rng.random() < 0.5, "bare": rng.random() < 0.5,
                "seed": rng.randrange(1 << 30), "nf": 3}

    @staticmethod
    def one(rng):
        d = rng.choice(STRENGTH[:8] if rng.random() < 0.85 else STRENGTH) * rng.choice([1, -1])
        return {"kind": rng.choice(KINDS), "i": rng.randrange(5), "j": rng.randrange(5), "d": d, "q": rng.choice([0.1, 0.2, 0.5, 0.8]),
                "g": rng.choice([0.05, 0.1, 0.2, 0.3]), "op": rng.choice(["==", "==", ">=", "<=", ">", "<", "between"])}

    def shrink(self, case):
        import copy
        for i in range(len(case["views"])):
            c = copy.deepcopy(case)
            del c["views"][i]
            yield c
        for k in ("rank", "vector", "usep"):
            if case[k]:
                c = copy.deepcopy(case)
                c[k] = None if k == "rank" else False
                yield c
        for cfg in world.shrink_cfg(case["cfg"]):
            c = copy.deepcopy(case)
            c["cfg"] = cfg
            yield c

    def run(self, case):
        res = Result()
        x = world.Ctx(case["cfg"])
        V = Views(x, case)
        r = rnd(case["seed"])
        kinds = sorted({k for k in ORDER if V.views[k]})
        ops = sorted({o for k in ORDER[:-1] for s, _ in V.views[k].values() for o, _ in s})
        res.op("views_seq" if case["seq"] else "views")
        for k in kinds:
            res.count("views_" + k)
        data = {"views": {k: {str(t): v for t, v in V.views[k].items()} for k in kinds}, "seq": case["seq"]}
        must, ref, cvars, verdict = V.reference()
        prior = x.views_prior
        vp = x.vec_p() if case["usep"] else None
        L = boot.LIB

        def once(plan, how):
            sim = sched.Sim(common.keyed(plan, "a"), seam_budget=3000)
            flags = []

            def obs(ts, cls, name, a, k, out):
                if cls == "minimize":
                    flags.append("raise" if isinstance(out, BaseException) else bool(out.success))
            sim.observers.append(obs)
            with sim:
                sim.begin_op("a")
                kind, v = common.guarded(lambda: L.views.FlexibleViewsProcessor(prior, vp, **V.kw))
            res.take(sim)
            res.sig(kinds, ops, case["seq"], kind, sorted(set(sim.fired)))
            res.note(kinds, ops, "seq" if case["seq"] else "joint", how, "fired", sim.fired[:3], "->", kind, "" if kind == "ok" else repr(v)[:80])
            ctx = f"{how} {data}"
            if kind == "ok":
                lies = [n for (c, n), a in plan.items() if a["act"] == "lie"]
                calls = sum(1 for q in sim.serial_ts.seam_list if q[0] == "minimize")
                m = must
                if must is not None and any(n == "*" or n < calls - 1 for n in lies):
                    # an earlier pass that met its views elsewhere moves the linearisation point of the later ones
                    m = V.exact()
                self.judge(res, V, v, m, ref, cvars, verdict, ctx, lied=any(f.endswith('lie') for f in sim.fired))
            elif sim.fired and common.is_injected(v):
                res.count("injected_error_surfaced")
            else:
                res.count("refused")
            return kind, v, sim

        kind, v, sim = once({}, "clean")
        if kind == "exc":
            if not isinstance(v, (RuntimeError, ValueError)):
                res.bad("wrong error", f"{data}: {type(v).__name__}: {v}")
            if not kinds:
                res.bad("refused without views", f"{v!r}")
            if ref is not None and isinstance(v, RuntimeError):
                e = solve_margin(V, must)
                if e and ref.min() > 1e-9 and not V.views["cvar"]:
                    res.bad("feasible views refused", f"{data}: {v}; reference posterior has smallest probability {ref.min():.3g}")
        clean = (kind, v)
        points = [q for q in sim.serial_ts.seam_list if q[0] == "minimize"]
        for m in range(case["nf"]):
            plan = {}
            if points:
                for _ in range(r.choice([1, 1, 2, 4])):
                    q = points[-1] if r.random() < 0.3 else points[int(r.random() * len(points))]
                    if r.random() < 0.35:
                        act = {"act": "lie", "f": r.choice([0.0, 0.3, 0.7, 0.9, 1.2]), "seed": r.randrange(1 << 30)}
                    else:
                        act = faults.gen_action(r, "minimize")
                    plan[(q[0], q[1])] = act
                if m == 2:
                    act = r.choice([{"act": "flag"}, {"act": "stall"}, {"act": "lie", "f": 0.0, "seed": 1}, faults.gen_action(r, "minimize")])
                    plan = {("minimize", "*"): act}
                once(plan, "faults " + ",".join(faults.label("minimize", a) for a in plan.values()))
        k2, v2, _ = once({}, "retry")
        if k2 != clean[0] or (k2 == "ok" and not np.array_equal(np.asarray(v2.posterior_probabilities), np.asarray(clean[1].posterior_probabilities))):
            res.bad("retry differs", f"{data}")
        return res.out()

    def judge(self, res, V, v, must, ref, cvars, verdict, ctx, lied):
        q = np.asarray(v.get_posterior_probabilities(), float)
        S = V.p.size

        def bad(key, msg):
            res.bad(key, f"{ctx}: {msg}")
        if q.size != S or not np.all(np.isfinite(q)):
            return bad("malformed probabilities", f"shape {q.shape}, {q.ravel()[:5]}")
        q = q.ravel()
        res.count("posteriors_judged")
        if q.min() < 0 or abs(q.sum() - 1) > 1e-9:
            bad("not probabilities", f"min {q.min()}, sum {q.sum()!r}")
        if not any(V.views.values()):
            if not np.allclose(q, V.p, rtol=1e-12, atol=0):
                bad("no views but not the prior", f"{np.abs(q - V.p).max()}")
        if verdict == "impossible":
            bad("contradictory views answered", "no probabilities meet these views")
        if must is not None:
            eq, ub = must
            for side, rows in (("==", eq), ("<=", ub)):
                for row, b in rows:
                    miss = float(row @ q - b)
                    miss = abs(miss) if side == "==" else miss
                    if miss > (3e-3 if lied else 2e-4) * np.max(np.abs(row)):
                        bad("view not honoured", f"row {side} {b:.6g}, posterior gives {row @ q:.6g} (miss {miss / np.max(np.abs(row)):.3g} of the row size)")
                    res.count("rows_checked")
        for (i,), ((t, g), _) in (cvars or {}).items():
            xs = V.R[:, i]
            c = cvar_of(xs, q, g)
            if abs(c - t) > 4e-3 * np.max(np.abs(xs)) / g:
                bad("CVaR view not honoured", f"asset {i}: CVaR {c:.6g} at {g}, view {t:.6g}")
            res.count("cvar_checked")
        if ref is not None and ref.min() > 1e-12 and not lied:
            d = float(np.abs(q - ref).sum())
            res.count("optimal_checked")
            if d > 1e-3:
                bad("not the closest posterior", f"L1 distance {d:.3g} from the minimum-entropy posterior")
        mu = q @ V.R
        got = v.get_posterior()
        if not np.allclose(np.asarray(got[0], float).ravel(), mu, rtol=1e-9, atol=1e-14):
            bad("untrue posterior mean", f"{np.asarray(got[0])} vs {mu}")
        C = (V.R - mu).T @ ((V.R - mu) * q[:, None])
        if not np.allclose(np.asarray(got[1], float), C, rtol=1e-7, atol=1e-13 + 1e-9 * np.abs(C).max()):
            bad("untrue posterior covariance", f"{np.asarray(got[1])} vs {C}")
        if not np.array_equal(np.asarray(v.get_scenarios(), float), V.R):
            bad("scenarios changed", "")


def solve_margin(V, must):
    """Views can be met with room to spare by strictly positive probabilities."""
    eq, ub = must
    s = shortfall(V.p, eq, ub)
    return s is not None and s < 1e-9


CHECK = C08()
