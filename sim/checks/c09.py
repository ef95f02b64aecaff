"""C09: ensembles are all-or-nothing, ordered, and combine exactly what they built."""
import copy

import numpy as np

from .. import boot, canon, common, faults, sched, world
from ..common import Check, Result, rnd

NAMES = ["zeta", "alpha", "mid", "beta", "omega"]


def _qp(P, q, G, h, A, b):
    """Reference QP: tight tolerances, best effort."""
    from cvxopt import matrix, solvers
    m = lambda v: matrix(np.array(v, float))
    best = None
    for tol in (1e-12, 1e-10, 1e-8):
        try:
            s = solvers.qp(m(P), m(q.reshape(-1, 1)), m(G), m(h.reshape(-1, 1)), m(A), m(b.reshape(-1, 1)),
                           options={"show_progress": False, "abstol": tol, "reltol": tol, "feastol": tol, "maxiters": 200})
        except (ArithmeticError, ValueError):
            continue
        if s["status"] == "optimal":
            return np.array(s["x"]).ravel()
        best = s["x"] if s["x"] is not None else best
    return None


def stack_reference(E, folds):
    """(stacked portfolio, objective of a stacked portfolio's weights) of the documented problem."""
    n, m = E.shape
    size = m // folds
    parts = [list(range(k * size, (k + 1) * size)) for k in range(folds - 1)] + [list(range((folds - 1) * size, m))]
    G, l = np.zeros((m, m)), np.zeros(m)
    for part in parts:
        keep = [i for i in range(m) if i not in part]
        sub = np.zeros((m, n))
        sub[keep] = E.T[keep]
        G += sub @ sub.T
        l += sub @ E[:, part].mean(axis=1)
    w = _qp(2 * G, -2 * l, -np.eye(m), np.zeros(m), np.ones((1, m)), np.ones(1))
    if w is None:
        return None
    g = 2 * G @ w - 2 * l
    sc = max(1e-9, np.abs(G).max())
    if np.min(w) < -1e-6 or abs(w.sum() - 1) > 1e-6 or np.max(g[w > 1e-5]) - np.min(g) > 1e-5 * sc:
        return None
    return E @ w


def in_hull(E, s):
    """Distance of s from the convex hull of the columns of E (weighted NNLS)."""
    from scipy.optimize import nnls
    big = 1e3 * max(1.0, np.abs(E).max())
    A = np.vstack([E, np.full((1, E.shape[1]), big)])
    return nnls(A, np.r_[s, big], maxiter=1000)[1]


def gen_raw(rng):
    m = rng.choice([1, 2, 2, 3, 3, 4, 5])
    n = rng.choice([2, 3, 4])
    lab = rng.random() < 0.7
    specs = []
    for i in range(m):
        nm = NAMES[i] if rng.random() < 0.95 else NAMES[0]
        specs.append({"name": nm, "cols": rng.choice([1, 2, 3, 4]), "seed": rng.randrange(1 << 30),
                      "form": rng.choice(["series", "tuple", "array", "list", "perm" if lab else "array", "frontier_min"]),
                      "sel": rng.randrange(4), "fs": rng.choice([None, None, 0, 1, 9, "two"] if rng.random() < 0.3 else [None, 0]),
                      "alien": lab and rng.random() < 0.08, "dup": rng.random() < 0.25})
        if specs[1:] and specs[-1]["dup"]:  # the same numbers as the previous one, perhaps on other assets
            specs[-1].update({k: specs[-2][k] for k in ("cols", "seed", "sel", "form")})
            specs[-1]["alien"] = lab and rng.random() < 0.3
    ens = rng.choice(["average", "stack", ["average", "stack"], ["stack", "average"], " Stack ", "AVERAGE", None, "none", "", ["average"], "median"]
                     if rng.random() < 0.6 else ["average", "stack", ["average", "stack"]])
    w = rng.choice([None, None, "list", "list", "series", "short", "zero"])
    return {"mode": "raw", "n": n, "lab": lab, "specs": specs, "ens": ens, "comb": rng.choice(["selected", "selected", "frontier", "Frontier", "both"] if rng.random() < 0.5 else ["selected", "frontier"]),
            "folds": rng.choice([None, None, 2, 3, 5, 1]), "w": w, "wseed": rng.randrange(99), "opts": rng.choice([None, None, {}, {"maxiters": 80}, {"maxiters": 1}, {"abstol": 1e-9}])}


class Raw:
    """Simulator-owned factories and selectors with known results."""

    def __init__(self, c):
        L = boot.LIB
        self.c, self.log = c, []
        n = c["n"]
        self.assets = [f"X{i}" for i in range(n)]
        self.W, self.pick, self.fr = [], [], []
        specs = []
        prev = None
        for k, s in enumerate(c["specs"]):
            r = np.random.Generator(np.random.PCG64(s["seed"]))
            W = r.dirichlet(np.ones(n), s["cols"]).T
            if s["dup"] and prev is not None and prev.shape == W.shape:
                W = prev.copy()
            prev = W
            risks = r.permutation(np.arange(s["cols"]) + 1.0)
            col = s["sel"] % s["cols"]
            names = self.assets if c["lab"] else None
            if s["alien"]:
                names = self.assets[:-1] + ["Q"]
            f = L.PortfolioFrontier(weights=W.copy(), returns=r.normal(size=s["cols"]), risks=risks, risk_measure="r", asset_names=names)
            self.W.append(W)
            self.fr.append(f)
            self.pick.append(W[:, int(np.argmin(risks)) if s["form"] == "frontier_min" else col])
            specs.append(L.ensembles.EnsembleSpec(name=s["name"], frontier_factory=self.factory(k), selector=self.selector(k, s, col, names),
                                        metadata={"k": k, "nest": {"v": [k]}},
                                        frontier_selection=None if s["fs"] is None else ([0, 0] if s["fs"] == "two" else [s["fs"]])))
        self.specs = specs

    def cb(self, name):
        from .. import seams
        if seams.ACTIVE is not None:
            seams.ACTIVE.callback(name)

    def factory(self, k):
        def f():
            self.log.append(("factory", k))
            self.cb("factory")
            return self.fr[k]
        return f

    def selector(self, k, s, col, names):
        import pandas as pd

        def sel(frontier):
            self.log.append(("selector", k, frontier is self.fr[k]))
            self.cb("selector")
            if s["form"] == "frontier_min":
                return frontier.min_risk()
            w = np.array(frontier.weights[:, col])
            if s["form"] == "array":
                return w
            if s["form"] == "list":
                return list(w)
            ser = pd.Series(w, index=names)
            if s["form"] == "perm":
                ser = ser.iloc[::-1]
            return (ser, 0.1, 0.2) if s["form"] == "tuple" else ser
        return sel

    def kwargs(self):
        import pandas as pd
        c = self.c
        m = len(self.specs)
        kw = {"ensemble": c["ens"], "combine": c["comb"]}
        if c["folds"] is not None:
            kw["stack_folds"] = c["folds"]
        self.w = np.full(m, 1.0 / m)
        if c["w"]:
            v = np.random.Generator(np.random.PCG64(c["wseed"])).uniform(0.1, 2, m)
            if c["w"] == "short":
                kw["ensemble_weights"] = list(v) + [1.0]
            elif c["w"] == "zero":
                kw["ensemble_weights"] = [0.0] * m
            elif c["w"] == "series" and c["comb"].lower() in ("selected", "frontier") and len({s["name"] for s in c["specs"]}) == m:
                kw["ensemble_weights"] = pd.Series(v, index=[s["name"] for s in c["specs"]]).iloc[::-1]
            else:
                kw["ensemble_weights"] = list(v)
            self.w = v / v.sum()
        if c["opts"] is not None:
            kw["stack_kwargs"] = dict(c["opts"])
        return kw

    def expect(self):
        """('error',) or ('ok', {ensemble: reference}) ; 'any' when the stack QP may legitimately give up."""
        c = self.c
        m = len(self.specs)
        ens = c["ens"]
        if ens is None or (isinstance(ens, str) and ens.strip().lower() in ("", "none")):
            ens = []
        elif isinstance(ens, str):
            ens = [ens.strip().lower()]
        comb = c["comb"].lower()
        if comb not in ("selected", "frontier"):
            return ("error",)
        if any(e not in ("average", "stack") for e in ens):
            return ("error",)
        alien = c["lab"] and any(s["alien"] for s in c["specs"]) and not all(s["alien"] for s in c["specs"])
        # selections come back labelled by the frontier they were taken from (arrays) or by the selector
        if ens and alien and m > 1:
            return ("error",)
        if comb == "selected":
            cols = self.pick
        else:
            cols = []
            if ens:
                for s, W, f in zip(c["specs"], self.W, self.fr):
                    j = int(np.argmin(f.risks)) if s["fs"] is None else s["fs"]
                    if j == "two" or j >= W.shape[1]:
                        return ("error",)
                    cols.append(W[:, j])
        out = {}
        for e in ens:
            E = np.array(cols).T
            if e == "average":
                if c["w"] in ("short", "zero"):
                    return ("error",)
                out[e] = E @ self.w
            else:
                folds = min(c["folds"] if c["folds"] is not None else 3, m)
                if folds < 2:
                    return ("error",)
                out[e] = ("stack", E, folds)
        return ("ok", out)


class C09(Check):
    id = "C09"
    n_quick = 2000
    n_thorough = 16000
    rule = ("one case = one ensemble request (owned factories and selectors, library-made specifications, wrapper specifications or the "
            "stand-alone averaging/stacking functions), run clean, with failures in callbacks, estimators and solvers at seeded points, and "
            "reassembled afterwards; non-trivial when a fault fired; distinct by (mode, request shape, outcome, faults)")
    sig_measure = "sequence of (mode, ensemble, combine, number of specifications, outcome, fired fault labels)"

    def gen(self, rng, i, tier):
        mode = rng.choice(["raw", "raw", "made", "wrapper", "parts"])
        case = {"mode": mode, "seed": rng.randrange(1 << 30)}
        if mode == "raw":
            case["raw"] = gen_raw(rng)
        elif mode == "parts":
            case["n"], case["m"] = rng.choice([2, 3, 5]), rng.choice([2, 3, 4, 5, 7])
            case["fn"] = rng.choice(["average_exposures", "exposure_stacking", "average_frontiers", "exposure_stack_frontiers", "stack_portfolios", "percentile"])
            case["L"] = rng.choice([1, 2, 3, 5, 8])
            case["lab"] = rng.random() < 0.5
            case["form"] = rng.choice(["array", "frame"])
            case["w"] = rng.choice([None, "list", "series", "perm"])
            case["dup"] = rng.random() < 0.15
            case["scale"] = rng.choice([1.0, 1.0, 3.0, 50.0])
            case["sel"] = rng.choice([None, "cols"])
        else:
            case["cfg"] = world.gen_cfg(rng)
            if mode == "made":
                p = world.g_asm(rng, case["cfg"])
            else:
                p = world.OPS["wrapper_ensemble"].gen(rng, case["cfg"])
            case["p"] = p
        return case

    def shrink(self, case):
        if case["mode"] == "raw":
            for i in range(len(case["raw"]["specs"])):
                if len(case["raw"]["specs"]) > 1:
                    c = copy.deepcopy(case)
                    del c["raw"]["specs"][i]
                    yield c
            for k, v in (("folds", None), ("w", None), ("opts", None), ("lab", False), ("ens", "average")):
                if case["raw"][k] != v:
                    c = copy.deepcopy(case)
                    c["raw"][k] = v
                    if k == "lab":
                        for s in c["raw"]["specs"]:
                            s["alien"] = False
                            s["form"] = "array" if s["form"] == "perm" else s["form"]
                    yield c
        elif case["mode"] == "made":
            for i in range(len(case["p"]["specs"])):
                if len(case["p"]["specs"]) > 1:
                    c = copy.deepcopy(case)
                    del c["p"]["specs"][i]
                    yield c
        if "cfg" in case:
            for cfg in world.shrink_cfg(case["cfg"]):
                c = copy.deepcopy(case)
                c["cfg"] = cfg
                yield c

    def run(self, case):
        res = Result()
        res.op(case["mode"])
        getattr(self, "run_" + case["mode"])(case, res)
        return res.out()

    @staticmethod
    def sim(plan, fn, seam_budget=4000):
        sim = sched.Sim(common.keyed(plan, "a"), seam_budget=seam_budget)
        with sim:
            sim.begin_op("a")
            kind, v = common.guarded(fn)
        return kind, v, sim

    def stacked(self, res, E, folds, got, ctx):
        d = in_hull(E, got)
        if d > 1e-5 * max(1.0, np.abs(E).max()):
            res.bad("stacked is not a combination", f"{ctx}: {got} is {d:.3g} away from the convex hull of the portfolios")
        ref = stack_reference(E, folds)
        if ref is None:
            res.count("stack_reference_unavailable")
            return
        res.count("stack_checked")
        if np.max(np.abs(ref - got)) > max(3e-3 * np.abs(E).max(), 1e-3):  # the solver's absolute gap is 1e-7
            res.bad("stacked does not solve the stacking problem", f"{ctx}: {got}, reference {ref}, portfolios {E.tolist()}, folds {folds}")

    # -- owned factories and selectors ------------------------------------------------
    def run_raw(self, case, res):
        c = case["raw"]
        r = rnd(case["seed"])
        L = boot.LIB
        R = Raw(c)
        kw = R.kwargs()
        m = len(R.specs)
        order = [e for k in range(m) for e in (("factory", k), ("selector", k, True))]
        exp = R.expect()
        ctx0 = f"raw {c}"

        def once(plan, how, specs=None, extra=None):
            R.log.clear()
            kind, v, sim = self.sim(plan, lambda: L.assemble_portfolio_ensemble(R.specs if specs is None else specs, **(kw if extra is None else extra)))
            res.take(sim)
            res.sig("raw", str(c["ens"]), c["comb"], m, how if not plan else "", kind, sorted(sim.fired))
            res.note("raw", c["ens"], c["comb"], m, how, "fired", sim.fired, "->", kind, "" if kind == "ok" else repr(v)[:80])
            return kind, v, sim, list(R.log)

        def judge(kind, v, log, sim, ctx):
            if log != order[:len(log)]:
                res.bad("builders out of order", f"{ctx}: {log}")
            if kind == "ok" and log != order:
                res.bad("builders not run exactly once", f"{ctx}: {log}")
            if kind == "ok":
                if exp[0] == "error":
                    res.bad("invalid request answered", f"{ctx}: {v.ensembles}")
                else:
                    self.raw_result(res, R, v, exp[1], ctx)

        kind, v, sim, log = once({}, "clean")
        judge(kind, v, log, sim, "clean " + ctx0)
        if kind == "exc":
            if exp[0] == "ok" and not (any(e == "stack" for e in exp[1]) and isinstance(v, (RuntimeError, ArithmeticError))):
                res.bad("valid request refused", f"{ctx0}: {type(v).__name__}: {v}")
            if exp[0] == "error" and not isinstance(v, (ValueError, IndexError, KeyError, RuntimeError, ArithmeticError)):
                res.bad("wrong error", f"{ctx0}: {type(v).__name__}: {v}")
        clean = (kind, canon.canon(v))
        points = list(sim.serial_ts.seam_list)
        for _ in range(4):
            if not points:
                break
            cls, n, name = points[int(r.random() * len(points))]
            act = faults.gen_action(r, cls.split(":")[0])
            kind, v, sim, log = once({(cls, n): act}, faults.label(cls, act))
            ctx = f"{faults.label(cls, act)} at {cls}#{n} {ctx0}"
            if not sim.fired:
                judge(kind, v, log, sim, ctx)
                continue
            if cls.startswith("callback"):
                want = order[:2 * n + (2 if cls.endswith("selector") else 1)]
                if log != want:
                    res.bad("later specifications run after a failure" if len(log) > len(want) else "builders out of order", f"{ctx}: ran {log}")
                if kind == "ok" or not common.is_injected(v):
                    res.bad("failure not surfaced", f"{ctx}: {kind} {v!r:.200}")
            else:
                if kind == "ok":
                    res.bad("unsolved stacking returned", f"{ctx}: {v.ensembles}")
                elif not (common.is_injected(v) or isinstance(v, (RuntimeError, ArithmeticError, ValueError, TypeError))):
                    res.bad("wrong error", f"{ctx}: {type(v).__name__}")
                if log != order:
                    res.bad("builders not run exactly once", f"{ctx}: {log}")
        # reuse: alone, reversed, and the same again
        k = r.randrange(m)
        R.log.clear()
        kind, v, sim, log = once({}, "alone", [R.specs[k]], {"ensemble": None})
        if kind != "ok" or log != [("factory", k), ("selector", k, True)] or not np.array_equal(np.asarray(v.selections.iloc[:, 0].reindex(
                R.fr[k].asset_names or range(c["n"])), float), R.pick[k]):
            res.bad("specification not reusable", f"{ctx0}: alone {kind} {v!r:.200} {log}")
        kind, v, sim, log = once({}, "again")
        d = common.same(clean, (kind, canon.canon(v)), rtol=0, atol=0)
        if d:
            res.bad("specification not reusable", f"{ctx0}: {d}")

    def raw_result(self, res, R, v, want, ctx):
        c = R.c
        res.count("results_judged")
        labels = R.assets if c["lab"] else list(range(c["n"]))
        names = [s["name"] for s in c["specs"]]
        if list(v.selections.columns) != names:
            res.bad("selection columns", f"{ctx}: {list(v.selections.columns)}")
        for k, s in enumerate(c["specs"]):
            ls = R.fr[k].asset_names or labels
            got = np.asarray(v.selections.iloc[:, k].reindex(ls), float)
            if not np.array_equal(got, R.pick[k]):
                res.bad("selection differs", f"{ctx}: spec {k}: {got} vs {R.pick[k]}")
            last = max(i for i, nm in enumerate(names) if nm == s["name"])
            if v.frontiers.get(s["name"]) is not R.fr[last]:
                res.bad("frontier of another specification", f"{ctx}: {s['name']}")
            md = v.metadata.get(s["name"])
            if not isinstance(md, dict) or md.get("k") != last:
                res.bad("metadata of another specification", f"{ctx}: {md}")
        if set(v.ensembles) != set(want):
            res.bad("wrong set of ensembles", f"{ctx}: {sorted(v.ensembles)} vs {sorted(want)}")
            return
        for e, w in want.items():
            got = v.ensembles[e]
            arr = np.asarray(got.reindex(labels) if hasattr(got, "reindex") and not all(s["alien"] for s in c["specs"]) else got, float).ravel()
            if isinstance(w, tuple):
                self.stacked(res, w[1], w[2], arr, ctx)
            elif not np.allclose(arr, w, rtol=1e-10, atol=1e-13):
                res.bad("average is not the mean", f"{ctx}: {arr} vs {w}")
            if v.get(e) is not got or (v.average if e == "average" else v.stacked) is not got:
                res.bad("accessors disagree", ctx)

    # -- library-made specifications -----------------------------------------------------
    @staticmethod
    def manual(x, s, cb):
        """The pipeline a specification documents, out of the library's own public parts."""
        L = boot.LIB
        import pandas as pd
        from pyvallocation.utils.projection import log2simple, project_mean_covariance
        from pyvallocation.utils.validation import ensure_psd_matrix
        if s["src"] in ("dist", "factory"):
            dist = x.dist_b
        else:
            d = x.df.copy()
            if s["pre"]:
                d = d * 1.01
            p = x.p0 if (s["p"] and x.p0 is not None) else None
            if s["src"] == "scen":
                dist = L.AssetsDistribution(scenarios=d, probabilities=None if p is None else np.array(p))
            else:
                mu, S = L.estimate_moments(d, p=None if p is None else pd.Series(p, index=d.index), mean_estimator=s["me"], cov_estimator=s["ce"])
                if s["proj"] == "af":
                    mu, S = project_mean_covariance(mu, S, annualization_factor=3.0)
                elif s["proj"] == "log":
                    mu, S = log2simple(*project_mean_covariance(mu, S, annualization_factor=2.0))
                elif s["proj"] == "cb":
                    mu, S = mu * 1.1, S * 1.2
                M = ensure_psd_matrix(np.asarray(S, float)) + 1e-10 * np.eye(len(mu))
                dist = L.AssetsDistribution(mu=mu, cov=pd.DataFrame(M, index=S.index, columns=S.columns) if hasattr(S, "index") else M)
        w = L.PortfolioWrapper(dist)
        if s["con"] == "dict":
            from pyvallocation.utils.constraints import Constraints
            w.G, w.h, w.A, w.b = Constraints.from_dict({"long_only": True, "total_weight": 1.0, "bounds": (0.0, 0.85)}).to_matrices(dist.N)
        elif s["con"] == "obj":
            w.G, w.h, w.A, w.b = x.constraints(1).to_matrices(dist.N)
        o = s["opt"]
        if o in ("mv", "cb"):
            f = w.variance_frontier(num_portfolios=s["n"])
        elif o == "cvar":
            f = w.cvar_frontier(num_portfolios=s["n"], alpha=0.2)
        elif o == "rrp":
            f = w.relaxed_risk_parity_frontier(num_portfolios=s["n"], max_multiplier=1.2)
        else:
            f = w.robust_lambda_frontier(num_portfolios=s["n"], max_lambda=1.0)
        lab = None
        if o == "robust" and "Volatility" in f.alternate_risks and "Estimation Risk" in f.risk_measure:
            lab = "Volatility"
        k = s["sel"]
        if k == "tangency":
            v = f.tangency(risk_free_rate=0.0)[0]
        elif k in ("min_risk", "cb"):
            v = f.min_risk()[0]
        elif k == "max_return":
            v = f.max_return()[0]
        elif k == "risk_target":
            v = f.at_risk(max_risk=1e3, risk_label=lab)[0]
        elif k == "risk_match":
            v = f.closest_risk(float(np.sqrt(np.mean(np.diag(x.cov0)))), risk_label=lab)[0]
        elif k == "risk_percentile":
            v = f.at_percentile(0.5, risk_label=lab)[0]
        elif k == "column":
            v = f.weights[:, 0]
        else:
            v = f.weights[:, -1]
        return np.asarray(v, float).ravel(), np.asarray(f.weights, float), np.asarray(f.risks, float), f.asset_names

    def run_made(self, case, res):
        x = world.Ctx(case["cfg"])
        p = case["p"]
        r = rnd(case["seed"])
        L = boot.LIB
        try:
            x.dist_b
            cb = world.Callbacks()
            args = world.a_asm(x, p, cb)
        except Exception as e:
            res.note("not buildable", repr(e))
            return
        specs, kw = args["specs"], args["kw"]
        m = len(specs)
        names = world.spec_names(m)
        refs = []
        for s in p["specs"]:
            def one(s=s):
                try:
                    return ("ok",) + self.manual(x, s, None)
                except Exception as e:
                    return ("exc", type(e).__name__)
            refs.append(common.isolated(one))
        ctx0 = f"made {p}"
        expected = self.callback_order(p, names)

        def once(plan, how, sp=specs, k2=kw):
            cb.rec.clear()
            cb.n.clear()
            kind, v, sim = self.sim(plan, lambda: L.assemble_portfolio_ensemble(sp, **k2))
            res.take(sim)
            res.sig("made", [(s["src"], s["opt"], s["sel"]) for s in p["specs"]], how if not plan else "", kind, sorted(sim.fired))
            res.note("made", [(s["src"], s["opt"], s["sel"]) for s in p["specs"]], how, "fired", sim.fired[:3], "->", kind, "" if kind == "ok" else repr(v)[:80])
            calls = [(n, t) for n, t, _ in cb.rec]
            if calls != expected[:len(calls)] or (kind == "ok" and sp is specs and calls != expected):
                res.bad("callbacks out of order", f"{how} {ctx0}: {calls}, expected {expected}")
            return kind, v, sim, calls

        kind, v, sim, calls = once({}, "clean")
        clean = (kind, canon.canon(v))
        if kind == "ok":
            self.made_result(res, v, refs, names, p, "clean " + ctx0)
        elif all(q[0] == "ok" and q[4] == refs[0][4] for q in refs) and p["comb"] == "selected" and "stack" not in str(p["ens"]):
            res.bad("valid request refused", f"{ctx0}: {type(v).__name__}: {v}")
        points = list(sim.serial_ts.seam_list)
        for _ in range(3):
            if not points:
                break
            q = points[int(r.random() * len(points))]
            act = faults.gen_action(r, q[0].split(":")[0])
            kind, v, sim, calls = once({(q[0], q[1]): act}, faults.label(q[0], act))
            ctx = f"{faults.label(q[0], act)} at {q[0]}#{q[1]} {ctx0}"
            if kind == "ok":
                # fallbacks inside the optimisers are allowed; what is combined must still be what was built
                self.consistent(res, v, p, names, ctx)
            elif q[0].startswith("callback") and sim.fired and not common.is_injected(v):
                res.bad("failure not surfaced", f"{ctx}: {type(v).__name__}: {v}")
        k = r.randrange(m)
        kind, v, sim, calls = self.alone(specs[k], res)
        if refs[k][0] == "ok":
            if kind != "ok":
                res.bad("specification not reusable", f"{ctx0}: spec {k} alone raised {v!r}")
            elif not np.allclose(np.asarray(v.selections.iloc[:, 0], float), refs[k][1], rtol=1e-5, atol=1e-6):
                res.bad("specification not reusable", f"{ctx0}: spec {k} alone gives {np.asarray(v.selections.iloc[:, 0])}, documented pipeline {refs[k][1]}")
        kind, v, sim, calls = once({}, "again")
        d = common.same(clean, (kind, canon.canon(v)))
        if d:
            res.bad("specification not reusable", f"{ctx0}: {d}")

    def alone(self, spec, res):
        kind, v, sim = self.sim({}, lambda: boot.LIB.assemble_portfolio_ensemble([spec], ensemble=None))
        res.take(sim)
        return kind, v, sim, None

    @staticmethod
    def callback_order(p, names):
        out = []
        for s, nm in zip(p["specs"], names):
            if s["src"] == "factory":
                out.append(("distribution_factory", nm))
            if s["src"] in ("returns", "scen"):
                if s["pre"]:
                    out.append(("preprocess", nm))
                if s["proj"] == "cb" and s["src"] == "returns":
                    out.append(("projection", nm))
            if s["opt"] not in ("mv", "cvar", "rrp", "robust"):
                out.append(("optimiser", nm))
            if s["sel"] in ("cb", "cb_arr"):
                out.append(("selector", nm))
        return out

    def made_result(self, res, v, refs, names, p, ctx):
        res.count("results_judged")
        for k, (nm, ref) in enumerate(zip(names, refs)):
            if ref[0] != "ok":
                res.bad("result from a failing specification", f"{ctx}: spec {k} raises {ref[1]} on its own")
                continue
            if not np.allclose(np.asarray(v.selections.iloc[:, k].dropna(), float), ref[1], rtol=1e-5, atol=1e-6):
                res.bad("selection differs", f"{ctx}: spec {k} ({p['specs'][k]}): {np.asarray(v.selections.iloc[:, k])}, documented pipeline {ref[1]}")
            if not np.allclose(np.asarray(v.frontiers[nm].weights, float), ref[2], rtol=1e-5, atol=1e-6):
                res.bad("frontier differs", f"{ctx}: spec {k} ({p['specs'][k]})")
        self.consistent(res, v, p, names, ctx)

    def consistent(self, res, v, p, names, ctx):
        """Ensembles are made of exactly the selections / frontier columns in the result."""
        import pandas as pd
        if list(v.selections.columns) != names or list(v.frontiers) != names:
            res.bad("selection columns", f"{ctx}: {list(v.selections.columns)} {list(v.frontiers)}")
            return
        m = len(names)
        if p["comb"] == "selected" or not p["ens"]:
            E = np.asarray(v.selections, float)
        else:
            cols = []
            for s, nm in zip(p["specs"], names):
                f = v.frontiers[nm]
                cols.append(np.asarray(f.weights, float)[:, int(np.argmin(f.risks)) if s["fs"] is None else s["fs"]])
            E = np.array(cols).T
        ens = p["ens"]
        ens = [] if ens is None else [ens] if isinstance(ens, str) else list(ens)
        if set(v.ensembles) != set(ens):
            res.bad("wrong set of ensembles", f"{ctx}: {sorted(v.ensembles)}")
            return
        w = np.arange(1.0, m + 1) if p["w"] else np.ones(m)
        for e in ens:
            got = np.asarray(v.ensembles[e], float).ravel()
            if e == "average":
                if not np.allclose(got, E @ (w / w.sum()), rtol=1e-10, atol=1e-13):
                    res.bad("average is not the mean", f"{ctx}: {got} vs {E @ (w / w.sum())}")
            else:
                self.stacked(res, E, min(3, m), got, ctx)

    # -- wrapper specifications ------------------------------------------------------------
    def run_wrapper(self, case, res):
        x = world.Ctx(case["cfg"])
        r = rnd(case["seed"])
        spec = {"op": "wrapper_ensemble", "p": case["p"]}
        pr = common.try_prepare(x, spec)
        if pr is None:
            return
        op, args, cb = pr
        L = boot.LIB
        p = case["p"]
        before = canon.canon(args["w"].dist)
        kind, v, sim = self.sim({}, lambda: op.run(args))
        res.take(sim)
        res.sig("wrapper", p["sel"], p["cb"], kind)

        def ref():
            try:
                a = L.PortfolioWrapper(copy.deepcopy(args["w"].dist))
                f1 = a.variance_frontier(num_portfolios=p["n"])
                w1 = {"tangency": f1.tangency, "min_risk": f1.min_risk, "max_return": f1.max_return}[p["sel"]]
                w1 = w1(0.0)[0] if p["sel"] == "tangency" else w1()[0]
                f2 = L.PortfolioWrapper(copy.deepcopy(args["w"].dist)).robust_lambda_frontier(num_portfolios=2)
                return ("ok", np.asarray(w1, float), np.asarray(f2.max_return()[0], float))
            except Exception as e:
                return ("exc", type(e).__name__, str(e))
        rf = common.isolated(ref)
        ctx = f"wrapper {p}"
        if kind == "ok" and rf[0] == "ok":
            E = np.column_stack(rf[1:])
            got = np.asarray(v.selections, float)
            if list(v.selections.columns) != ["first", "second"] or not np.allclose(got, E, rtol=1e-5, atol=1e-6):
                res.bad("selection differs", f"{ctx}: {got.tolist()} vs {E.tolist()}")
            if not np.allclose(np.asarray(v.average, float), got.mean(1), rtol=1e-10, atol=1e-13):
                res.bad("average is not the mean", f"{ctx}")
            self.stacked(res, got, 2, np.asarray(v.stacked, float).ravel(), ctx)
            res.count("results_judged")
        elif kind == "exc" and rf[0] == "ok" and not isinstance(v, (RuntimeError, ArithmeticError)):
            res.bad("valid request refused", f"{ctx}: {type(v).__name__}: {v}")
        points = list(sim.serial_ts.seam_list)
        clean = (kind, canon.canon(v))
        for _ in range(2):
            if points:
                q = points[int(r.random() * len(points))]
                act = faults.gen_action(r, q[0].split(":")[0])
                k2, v2, sim = self.sim({(q[0], q[1]): act}, lambda: op.run(args))
                res.take(sim)
                res.sig("wrapper", k2, sorted(sim.fired))
                if k2 == "exc" and q[0].startswith("callback") and sim.fired and not common.is_injected(v2):
                    res.bad("failure not surfaced", f"{ctx}: {v2!r}")
        k3, v3, sim = self.sim({}, lambda: op.run(args))
        d = common.same(clean, (k3, canon.canon(v3)))
        if d:
            res.bad("specification not reusable", f"{ctx}: {d}")
        if canon.diff(before, canon.canon(args["w"].dist)):
            res.bad("wrapper changed", ctx)

    # -- stand-alone parts -------------------------------------------------------------------
    def run_parts(self, case, res):
        import pandas as pd
        L = boot.LIB
        r = rnd(case["seed"])
        g = np.random.Generator(np.random.PCG64(case["seed"]))
        n, m, fn, fold = case["n"], case["m"], case["fn"], case["L"]
        E = g.dirichlet(np.ones(n), m).T * case["scale"]
        if case["dup"] and m > 2:
            E[:, 1] = E[:, 0]
        assets = [f"X{i}" for i in range(n)]
        cols = [f"s{i}" for i in range(m)]
        arg = pd.DataFrame(E.copy(), index=assets, columns=cols) if case["form"] == "frame" else E.copy()
        w = g.uniform(0.2, 2, m)
        res.op(fn)
        res.sig(fn, case["form"], fold > m, case["w"])
        fr = []
        for k in range(m):
            W = g.dirichlet(np.ones(n), 3).T
            fr.append(L.PortfolioFrontier(weights=W, returns=g.normal(size=3), risks=g.permutation(3) + 1.0, risk_measure="r",
                                          asset_names=assets if case["lab"] else None))
        sel = None if case["sel"] is None else [[int(v)] for v in g.integers(0, 3, m)]
        FE = np.array([f.weights[:, int(np.argmin(f.risks)) if sel is None else sel[k][0]] for k, f in enumerate(fr)]).T
        ctx = f"{fn} n={n} m={m} L={fold} form={case['form']} w={case['w']}"
        stack = None
        if fn == "average_exposures":
            wt = {None: None, "list": list(w), "series": pd.Series(w, index=cols) if case["form"] == "frame" else list(w),
                  "perm": pd.Series(w, index=cols).iloc[::-1] if case["form"] == "frame" else np.array(w)}[case["w"]]
            call = lambda: L.ensembles.average_exposures(arg, wt)
            want = E @ ((np.ones(m) if wt is None else w) / (m if wt is None else w.sum()))
        elif fn == "exposure_stacking":
            call = lambda: L.ensembles.exposure_stacking(arg, fold)
            stack, want = E, None
        elif fn == "average_frontiers":
            wt = None if case["w"] is None else list(w)
            call = lambda: L.average_frontiers(fr, sel, ensemble_weights=wt)
            want = FE @ ((np.ones(m) if wt is None else w) / (m if wt is None else w.sum()))
        elif fn == "exposure_stack_frontiers":
            call = lambda: L.exposure_stack_frontiers(fr, fold, sel)
            stack, want = FE, None
        elif fn == "stack_portfolios":
            mixed = [f if k % 2 == 0 else (pd.Series(E[:, k], index=assets) if case["lab"] else E[:, k]) for k, f in enumerate(fr)]
            stack = np.array([FE[:, k] if k % 2 == 0 else E[:, k] for k in range(m)]).T
            call = lambda: L.stack_portfolios(mixed, selections=None if sel is None else [s if k % 2 == 0 else None for k, s in enumerate(sel)], L=fold)
            want = None
        else:
            pct = r.choice([0.0, 0.3, 0.5, 1.0])
            kind, v, sim = self.sim({}, lambda: L.ensembles.risk_percentile_selections(fr, pct))
            res.take(sim)
            if kind != "ok" or v != [[int(f.index_at_risk_percentile(pct))] for f in fr]:
                res.bad("percentile selections", f"{ctx}: {v!r}")
            return
        kind, v, sim = self.sim({}, call)
        res.take(sim)
        if stack is not None and (fold < 2 or fold > m):
            if kind == "ok" or not isinstance(v, ValueError):
                res.bad("invalid folds answered", f"{ctx}: {kind} {v!r:.100}")
            return
        if kind == "exc":
            if stack is None or not isinstance(v, (RuntimeError, ArithmeticError)):
                res.bad("valid request refused", f"{ctx}: {type(v).__name__}: {v}")
            return
        got = np.asarray(v, float).ravel()
        if stack is not None:
            self.stacked(res, stack, fold, got, ctx)
        elif not np.allclose(got, want, rtol=1e-10, atol=1e-13):
            res.bad("average is not the mean", f"{ctx}: {got} vs {want}")
        clean = got
        for q in [q for q in sim.serial_ts.seam_list if q[0] == "solver"][:1]:
            for _ in range(2):
                act = faults.gen_action(r, "solver")
                k2, v2, sim = self.sim({(q[0], q[1]): act}, call)
                res.take(sim)
                res.sig(fn, faults.label("solver", act), k2)
                if sim.fired and k2 == "ok":
                    res.bad("unsolved stacking returned", f"{ctx} {faults.label('solver', act)}: {v2!r:.200}")
        k3, v3, sim = self.sim({}, call)
        if k3 != "ok" or not np.array_equal(np.asarray(v3, float).ravel(), clean):
            res.bad("not repeatable", ctx)


CHECK = C09()
