"""C10: matrix repair is bounded, minimal and never hides a failure."""
import copy
import logging
import warnings

import numpy as np

from .. import boot, canon, common, faults, oracle, sched, world
from ..common import Check, Result, rnd

LADDER = 6           # documented default number of repairs of a factorisation
KINDS = ["pd", "pd", "singular", "zero", "tiny_neg", "neg", "indef", "asym", "nonfinite", "notsquare", "one"]
EST = [("sample", {}), ("ledoit_wolf", {}), ("ledoit_wolf", {"shrinkage_target": "constant_correlation"}), ("oas", {}), ("nls", {}), ("tyler", {}), ("poet", {}), ("glasso", {}), ("ewma", {})]
SURFACE = ["black_litterman", "bl_processor", "niw_moments", "robust_bayes", "niw_read", "views_synth", "robust_frontier", "robust_gamma",
           "rrp", "rrp_diag", "rrp_frontier", "poet", "tyler"]


def matrix(kind, n, seed, scale):
    r = np.random.Generator(np.random.PCG64(seed))
    Q = np.linalg.qr(r.normal(size=(n, n)))[0]
    d = r.uniform(0.2, 2.0, n)
    if kind == "singular":
        d[: max(1, n // 2)] = 0.0
    elif kind == "zero":
        d[:] = 0.0
    elif kind == "tiny_neg":
        d[0] = -10.0 ** r.uniform(-13, -7)
    elif kind == "neg":
        d[0] = -10.0 ** r.uniform(-6, -1)
    elif kind == "indef":
        d = -d
    M = (Q * d) @ Q.T
    M = 0.5 * (M + M.T) * scale
    if kind == "asym":
        M[0, -1] += scale * 10.0 ** r.uniform(-11, -0.5)
    elif kind == "nonfinite":
        i, j = r.integers(0, n, 2)
        M[i, j] = M[j, i] = r.choice([np.nan, np.inf, -np.inf])
    elif kind == "notsquare":
        M = r.choice([0, 1]) and M[:-1] if n > 1 else M.ravel()
        if not isinstance(M, np.ndarray):
            M = np.zeros((n, n + 1))
    elif kind == "one":
        M = np.array([[scale * r.choice([1.0, 0.0, -1e-10, -1.0])]])
    return M


def dress(M, fmt):
    M = np.array(M, order="F" if fmt == "f" else "C")
    if fmt == "view" and M.ndim == 2:
        big = np.full((2 * M.shape[0], 2 * M.shape[1]), 7.0)
        big[::2, ::2] = M
        M = big[::2, ::2]
    if fmt == "ro":
        M.flags.writeable = False
    return M


class Heard:
    """Warnings and library log records of a call."""

    def __init__(self):
        self.w, self.log = [], []

    def run(self, fn):
        h = logging.Handler(level=logging.WARNING)
        h.emit = lambda rec: self.log.append(rec.getMessage())
        lg = logging.getLogger("pyvallocation")
        lg.addHandler(h)
        try:
            with warnings.catch_warnings(record=True) as rec:
                warnings.simplefilter("always")
                try:
                    return fn()
                finally:
                    self.w = [(r.category, str(r.message)) for r in rec if not issubclass(r.category, DeprecationWarning)]
        finally:
            lg.removeHandler(h)

    def runtime(self):
        return [m for c, m in self.w if issubclass(c, (RuntimeWarning, UserWarning))]


def diag_shift(A, S):
    """(k, distance) for the best A = S + k I."""
    D = A - S
    k = float(np.mean(np.diag(D)))
    return k, float(np.max(np.abs(D - k * np.eye(len(S)))))


class C10(Check):
    id = "C10"
    n_quick = 3500
    n_thorough = 30000
    rule = ("one case = one matrix (well-conditioned to indefinite to non-finite, any layout) or one library object built on one, run clean and "
            "with the first k or random factorisation / eigenvalue calls failing; non-trivial when a fault fired; distinct by (mode, kind, "
            "failures, outcome)")
    sig_measure = "sequence of (mode, matrix kind or operation, number of failed factorisations, outcome)"

    def gen(self, rng, i, tier):
        mode = rng.choice(["chol", "chol", "chol", "psd", "psd", "robust", "rrp", "niw", "synth", "est", "est", "wrap", "surface", "surface"])
        case = {"mode": mode, "seed": rng.randrange(1 << 30)}
        if mode in ("chol", "psd", "wrap"):
            case.update(kind=rng.choice(KINDS), n=rng.choice([1, 2, 3, 4, 6]), scale=rng.choice([1.0, 1.0, 1e-4, 1e-2, 50.0]),
                        fmt=rng.choice(["c", "f", "view", "ro"]), jitter=rng.choice([None, None, 1e-10, 1e-6, 0.0, -1.0]),
                        att=rng.choice([None, None, 0, 1, 3, 9]), lab=rng.random() < 0.5, log=rng.random() < 0.3)
        elif mode in ("robust", "rrp", "niw", "synth"):
            case.update(n=rng.choice([2, 3, 4]), scale=rng.choice([1.0, 1e-2, 1e-4]), k=rng.choice([0, 1, 2, 3, 5, 6, 7, 30]))
        elif mode == "est":
            case.update(cfg=world.gen_cfg(rng), est=rng.choice(EST))
        else:
            case.update(cfg=world.gen_cfg(rng), op=rng.choice(SURFACE))
            case["p"] = world.OPS[case["op"]].gen(rng, case["cfg"])
        return case

    def shrink(self, case):
        if "n" in case and case["n"] > 2:
            c = copy.deepcopy(case)
            c["n"] -= 1
            yield c
        for k, v in (("fmt", "c"), ("jitter", None), ("att", None), ("scale", 1.0)):
            if k in case and case[k] != v:
                c = copy.deepcopy(case)
                c[k] = v
                yield c
        if "cfg" in case:
            for cfg in world.shrink_cfg(case["cfg"]):
                c = copy.deepcopy(case)
                c["cfg"] = cfg
                yield c

    def run(self, case):
        res = Result()
        res.op(case["mode"] if case["mode"] != "surface" else case["op"])
        getattr(self, "run_" + case["mode"])(case, res)
        return res.out()

    @staticmethod
    def sim(res, plan, fn):
        """Run fn; returns kind, value, failed factorisations in order, what was heard, sim."""
        fails, calls = [], []

        def ob(t, cls, name, a, k, v):
            if cls == "linalg":
                calls.append(name)
                if name.endswith(("cholesky", "cho_factor")):
                    fails.append(isinstance(v, BaseException))
        sim = sched.Sim(common.keyed(plan, "a"), seam_budget=3000)
        sim.observers.append(ob)
        heard = Heard()
        with sim:
            sim.begin_op("a")
            kind, v = common.guarded(lambda: heard.run(fn))
        res.take(sim)
        return kind, v, fails, calls, heard, sim

    @staticmethod
    def lead(seam_list, k, exc="LinAlgError"):
        """Fail the first k factorisations: counted over linear-algebra calls from the first one seen in a clean run."""
        idx = [n for cls, n, name in seam_list if cls == "linalg" and name.endswith(("cholesky", "cho_factor"))]
        first = idx[0] if idx else 0
        return {("linalg", first + q): {"act": "raise", "exc": exc} for q in range(k)}

    # -- the factorisation itself ----------------------------------------------------------
    def run_chol(self, case, res):
        r = rnd(case["seed"])
        M = dress(matrix(case["kind"], case["n"], case["seed"], case["scale"]), case["fmt"])
        kw = {}
        if case["jitter"] is not None:
            kw["jitter"] = case["jitter"]
        if case["att"] is not None:
            kw["max_attempts"] = case["att"]
        j = case["jitter"] if case["jitter"] and case["jitter"] > 0 else 1e-12
        top = LADDER if case["att"] is None else case["att"]
        keep = np.array(M)
        for k in [0] + r.sample([1, 2, 3, 4, 5, 6, 7, 8, 20], 2) + ["mid", "odd"]:
            if k == "mid":     # failing, working, failing
                plan = {("linalg", q): {"act": "raise", "exc": "LinAlgError"} for q in (0, 1, 3, 4)}
            elif k == "odd":
                plan = {("linalg", r.choice([0, 1])): {"act": "raise", "exc": r.choice(["MemoryError", "RuntimeError", "KeyboardInterrupt"])}}
            else:
                plan = {("linalg", q): {"act": "raise", "exc": "LinAlgError"} for q in range(k)}
            kind, v, fails, calls, heard, sim = self.sim(res, plan, lambda: boot.LIB.bayesian._cholesky_pd(M, **kw))
            f = sum(fails)
            ctx = f"_cholesky_pd({case['kind']}, n={case['n']}, scale={case['scale']}, {kw}) with failures {fails}"
            res.sig("chol", case["kind"], f, kind if kind == "ok" else type(v).__name__)
            res.note("chol", case["kind"], kw, "failures", fails, "->", kind, "" if kind == "ok" else repr(v)[:80])
            if not np.array_equal(keep, np.asarray(M), equal_nan=True):
                res.bad("argument changed", ctx)
            if len(fails) > top + 1:
                res.bad("unbounded repair", ctx)
            if k == "odd" and sim.fired:
                if kind == "ok" or not common.is_injected(v):
                    res.bad("failure hidden", f"{ctx}: {sim.fired} -> {kind} {v!r:.100}")
                continue
            if case["kind"] == "notsquare":
                if kind == "ok" or not isinstance(v, ValueError):
                    res.bad("not square accepted", f"{ctx}: {v!r:.100}")
                continue
            if case["kind"] == "nonfinite":
                if kind == "ok":
                    res.bad("non-finite matrix factorised", f"{ctx}: {keep.tolist()} -> {np.asarray(v).tolist()}")
                continue
            S = 0.5 * (keep + keep.T)
            if kind == "exc":
                if not isinstance(v, RuntimeError):
                    res.bad("wrong error", f"{ctx}: {type(v).__name__}: {v}")
                if f < top + 1:
                    res.bad("gave up early", f"{ctx}: {v!r:.100}")
            else:
                self.factor(res, S, v, f, j, ctx)
            if kind == "ok" and f and not heard.runtime():
                res.bad("repair not announced", ctx)
            if not f and case["kind"] != "asym" and heard.w:
                res.bad("warned without repair", f"{ctx}: {heard.w[:2]}")
            if case["kind"] == "asym" and kind == "ok" and np.max(np.abs(keep - keep.T)) > 1e-6 * max(1, np.abs(keep).max()) and not heard.w:
                res.bad("repair not announced", f"{ctx}: asymmetric by {np.max(np.abs(keep - keep.T))}")

    def factor(self, res, S, Lf, f, j, ctx):
        """Lf is a lower factor of S plus a diagonal the f failures allow."""
        Lf = np.asarray(Lf, float)
        res.count("factors_judged")
        noise = 1e-13 * max(np.abs(S).max(), 1e-300) * len(S)
        if Lf.shape != S.shape or not np.all(np.isfinite(Lf)) or np.any(np.triu(Lf, 1)):
            res.bad("not a lower factor", f"{ctx}: {Lf.tolist()}")
            return
        k, d = diag_shift(Lf @ Lf.T, S)
        allowed = 0.0 if f == 0 else j * 10.0 ** (f - 1)
        if d > noise + 1e-9 * allowed:
            res.bad("factor of another matrix", f"{ctx}: off by {d:.3g} beyond a diagonal shift")
        elif not (-noise <= k <= allowed * (1 + 1e-6) + noise):
            res.bad("repair too large", f"{ctx}: shifted by {k:.3g}, {f} failures allow {allowed:.3g}")

    # -- eigenvalue repair ------------------------------------------------------------------
    def run_psd(self, case, res):
        r = rnd(case["seed"])
        M = dress(matrix(case["kind"], case["n"], case["seed"], case["scale"]), case["fmt"])
        keep = np.array(M)
        kw = {} if not case["jitter"] or case["jitter"] <= 0 else {"jitter": case["jitter"]}
        j = kw.get("jitter", 1e-8)
        V = boot.LIB.utils.validation
        for k in [0, 1, 2, 3, "*", "mid", "odd", "nan"]:
            if k == "mid":
                plan = {("linalg", q): {"act": "raise", "exc": "LinAlgError"} for q in range(8) if r.random() < 0.5}
            elif k == "odd":
                plan = {("linalg", r.choice([0, 0, 1])): {"act": "raise", "exc": "MemoryError"}}
            elif k == "nan":
                plan = {("linalg", r.choice([0, 1, 2, "*"])): {"act": "nan"}}
            elif k == "*":
                plan = {("linalg", "*"): {"act": "raise", "exc": "LinAlgError"}}
            else:
                plan = {("linalg", q): {"act": "raise", "exc": "LinAlgError"} for q in range(k)}
            kind, v, fails, calls, heard, sim = self.sim(res, plan, lambda: V.ensure_psd_matrix(M, **kw))
            ctx = f"ensure_psd_matrix({case['kind']}, n={case['n']}, scale={case['scale']}, {kw}) faults {k}"
            res.sig("psd", case["kind"], str(k), len(sim.fired), kind if kind == "ok" else type(v).__name__)
            res.note("psd", case["kind"], kw, "faults", k, sim.fired, "->", kind, "" if kind == "ok" else repr(v)[:80])
            if not np.array_equal(keep, np.asarray(M), equal_nan=True):
                res.bad("argument changed", ctx)
            if len(calls) > 16:
                res.bad("unbounded repair", f"{ctx}: {len(calls)} eigenvalue calls")
            if k == "odd" and sim.fired:
                if kind == "ok" or not common.is_injected(v):
                    res.bad("failure hidden", f"{ctx}: {kind} {v!r:.100}")
                continue
            if case["kind"] in ("notsquare", "nonfinite"):
                if kind == "ok":
                    res.bad("not square accepted" if case["kind"] == "notsquare" else "non-finite matrix repaired", f"{ctx}: {v!r:.200}")
                elif case["kind"] == "notsquare" and not isinstance(v, ValueError):
                    res.bad("wrong error", f"{ctx}: {v!r:.100}")
                continue
            S = 0.5 * (keep + keep.T)
            lo = float(np.linalg.eigvalsh(S).min())
            if kind == "exc":
                if not isinstance(v, (ValueError, np.linalg.LinAlgError)):
                    res.bad("wrong error", f"{ctx}: {type(v).__name__}: {v}")
                if not sim.fired:
                    res.bad("gave up early", f"{ctx}: {v!r:.100}")
                continue
            if k == "*" and sim.fired and len(sim.fired) == len(calls):
                res.bad("failure hidden", f"{ctx}: every eigenvalue call failed, yet {v!r:.100}")
            self.shifted(res, S, v, lo, j, bool(sim.fired), ctx)
        kind, v, fails, calls, heard, sim = self.sim(res, {}, lambda: V.is_psd(M, **({"tolerance": j} if kw else {})))
        if case["kind"] == "notsquare":
            if kind == "ok":
                res.bad("not square accepted", f"is_psd: {v}")
        elif kind == "exc":
            if case["kind"] != "nonfinite":
                res.bad("wrong error", f"is_psd({case['kind']}): {v!r:.100}")
        else:
            want = None
            if case["kind"] == "nonfinite":
                want = False
            elif np.max(np.abs(keep - keep.T)) > 1e-3 * max(1.0, np.abs(keep).max()):
                want = False
            elif np.array_equal(keep, keep.T):
                lo = float(np.linalg.eigvalsh(keep).min())
                want = True if lo > -0.9 * j else False if lo < -1.1 * j - 1e-12 * np.abs(keep).max() else None
            if want is not None and bool(v) != want:
                res.bad("is_psd wrong", f"is_psd({case['kind']}, {keep.tolist()}) = {v}")
            kind, v, fails, calls, heard, sim = self.sim(res, {("linalg", "*"): {"act": "raise", "exc": "LinAlgError"}}, lambda: V.is_psd(M))
            if kind == "ok" and sim.fired and v:
                res.bad("failure hidden", f"is_psd({case['kind']}) true although no eigenvalues were available")

    def shifted(self, res, S, v, lo, j, faulted, ctx):
        v = np.asarray(v, float)
        res.count("repairs_judged")
        noise = 1e-13 * max(np.abs(S).max(), 1e-300) * len(S)
        if v.shape != S.shape or not np.all(np.isfinite(v)) or not np.array_equal(v, v.T):
            res.bad("repair not a symmetric finite matrix", f"{ctx}: {v.tolist()}")
            return
        k, d = diag_shift(v, S)
        if d > noise + 1e-12 * abs(k):
            res.bad("repair of another matrix", f"{ctx}: off by {d:.3g} beyond a diagonal shift")
        elif not (-noise <= k <= max(0.0, -lo) + 1.01 * max(j, 1e-6) + noise):
            res.bad("repair too large", f"{ctx}: shifted by {k:.3g}, smallest eigenvalue {lo:.3g}")
        elif float(np.linalg.eigvalsh(v).min()) < -1.05 * max(j, 1e-8) - noise:
            res.bad("result not positive semidefinite", f"{ctx}: {np.linalg.eigvalsh(v).min():.3g}")
        elif not faulted and lo > -0.9 * j and np.any(v != S):
            res.bad("repaired without need", f"{ctx}: shifted by {k:.3g}, smallest eigenvalue {lo:.3g}")

    # -- library objects ----------------------------------------------------------------------
    def run_wrap(self, case, res):
        import pandas as pd
        L = boot.LIB
        M = dress(matrix(case["kind"], case["n"], case["seed"], case["scale"]), case["fmt"])
        keep = np.array(M)
        if M.ndim != 2 or M.shape[0] != M.shape[1]:
            return
        n = M.shape[0]
        r = rnd(case["seed"])
        mu = np.array([r.uniform(-.05, .1) for _ in range(n)])
        names = [f"A{i}" for i in range(n)]
        arg = pd.DataFrame(M, index=names, columns=names) if case["lab"] else M
        m = pd.Series(mu, index=names) if case["lab"] else mu
        kw = {"return_type": "log"} if case["log"] else {}
        for k in [0, 1, 2, "*"]:
            plan = {("linalg", "*"): {"act": "raise", "exc": "LinAlgError"}} if k == "*" else {("linalg", q): {"act": "raise", "exc": "LinAlgError"} for q in range(k)}
            kind, v, fails, calls, heard, sim = self.sim(res, plan, lambda: L.PortfolioWrapper.from_moments(m, arg, **kw))
            ctx = f"from_moments({case['kind']}, n={n}, scale={case['scale']}, {kw}) faults {k}"
            res.sig("wrap", case["kind"], case["log"], k, kind if kind == "ok" else type(v).__name__)
            if not np.array_equal(keep, np.asarray(M), equal_nan=True):
                res.bad("argument changed", ctx)
            if kind == "exc":
                if not sim.fired and np.all(np.isfinite(keep)) and case["kind"] in ("pd", "singular"):
                    res.bad("gave up early", f"{ctx}: {v!r:.150}")
                continue
            if case["kind"] == "nonfinite":
                res.bad("non-finite matrix repaired", ctx)
                continue
            if k == "*" and sim.fired:
                res.bad("failure hidden", ctx)
            S = 0.5 * (keep + keep.T)
            lo = float(np.linalg.eigvalsh(S).min())
            got = np.asarray(v.dist.cov, float)
            if case["log"]:
                if case["kind"] != "pd" or case["scale"] > 1:
                    continue
                want = oracle.log2simple(mu, S)[1]
                if np.max(np.abs(got - want)) > 1e-5 * max(1e-3, np.abs(want).max()) + 2e-6 * np.exp(np.abs(S).max()):
                    res.bad("repair of another matrix", f"{ctx}: {got.tolist()} vs {want.tolist()}")
            else:
                self.shifted(res, S, got, lo, 1e-8, bool(sim.fired), ctx)
        if case["kind"] in ("neg", "indef", "pd") and np.all(np.isfinite(keep)):
            kind, v, fails, calls, heard, sim = self.sim(res, {}, lambda: L.AssetsDistribution(mu=m, cov=arg))
            lo = float(np.linalg.eigvalsh(0.5 * (keep + keep.T)).min())
            said = any("semi" in t or "definite" in t for _, t in heard.w)
            if kind == "ok" and lo < -1e-7 and not said:
                res.bad("repair not announced", f"AssetsDistribution({case['kind']}): smallest eigenvalue {lo:.3g}, heard {heard.w}")
            if kind == "ok" and lo > 1e-3 * case["scale"] and heard.w:
                res.bad("warned without repair", f"AssetsDistribution({case['kind']}): {heard.w[:2]}")
            if kind == "ok" and not np.array_equal(np.asarray(v.cov), keep):
                res.bad("argument changed", f"AssetsDistribution({case['kind']})")
            for exc in ("LinAlgError", "MemoryError"):
                kind, v, fails, calls, heard, sim = self.sim(res, {("linalg", "*"): {"act": "raise", "exc": exc}}, lambda: L.AssetsDistribution(mu=m, cov=arg))
                if kind == "ok" and sim.fired and lo < -1e-7 and not heard.w:
                    res.bad("failure hidden", f"AssetsDistribution({case['kind']})")

    def ladder(self, case, res, build, judge, what):
        """build() runs the library; the first k factorisations fail."""
        k = case["k"]
        kind, v, fails, calls, heard, sim = self.sim(res, {}, build)
        if kind != "ok":
            res.note(what, "clean run refused", repr(v)[:100])
            return
        if any(issubclass(c, RuntimeWarning) for c, _ in heard.w) and not any(fails):
            res.bad("warned without repair", f"{what}: {heard.w[:2]}")
        clean = v
        judge(v, clean, 0, what + " clean")
        seams = sim.serial_ts.seam_list
        points = [n for cls, n, name in seams if cls == "linalg" and name.endswith(("cholesky", "cho_factor"))]
        if not points or not k:
            res.sig(what, k, "no factorisation" if not points else "clean")
            return
        r = rnd(case["seed"])
        start = points[int(r.random() * len(points))]
        plan = {("linalg", start + q): {"act": "raise", "exc": "LinAlgError"} for q in range(k)}
        kind, v, fails, calls, heard, sim = self.sim(res, plan, build)
        f = sum(fails)
        ctx = f"{what} n={case['n']} scale={case['scale']} with factorisations {fails}"
        res.sig(what, f, kind if kind == "ok" else type(v).__name__)
        res.note(ctx, "->", kind, "" if kind == "ok" else repr(v)[:80])
        # longest run of consecutive failures = attempts on one matrix
        run = best = 0
        for b in fails:
            run = run + 1 if b else 0
            best = max(best, run)
        if best > LADDER + 1:
            res.bad("unbounded repair", ctx)
        if kind == "ok":
            if best > LADDER:
                res.bad("failure hidden", f"{ctx}: every attempt failed, yet a result")
            if f and not any(issubclass(c, (RuntimeWarning, UserWarning)) for c, _ in heard.w):
                res.bad("repair not announced", ctx)
            judge(v, clean, best, ctx)
        else:
            if not isinstance(v, (RuntimeError, np.linalg.LinAlgError, ValueError)):
                res.bad("wrong error", f"{ctx}: {type(v).__name__}: {v}")
            if f and best <= LADDER and isinstance(v, np.linalg.LinAlgError):
                res.bad("gave up early", f"{ctx}: {v!r:.100}")

    @staticmethod
    def pdm(case):
        return matrix("pd", case["n"], case["seed"], case["scale"])

    def run_robust(self, case, res):
        L = boot.LIB
        S, n = self.pdm(case), case["n"]
        r = rnd(case["seed"])
        mu = np.array([r.uniform(0.0, 0.1) for _ in range(n)])
        lam = r.choice([0.1, 1.0, 4.0])

        def build():
            o = L.RobustOptimizer(mu, S, np.vstack([-np.eye(n)]), np.zeros(n), np.ones((1, n)), np.ones(1))
            return o.solve_lambda_variant(lam)
        keep = S.copy()

        def judge(v, clean, f, ctx):
            w = np.asarray(v.weights, float)
            kk = 0.0 if not f else 1e-12 * 10.0 ** (f - 1)
            lo, hi = np.sqrt(w @ S @ w), np.sqrt(w @ S @ w + kk * w @ w)
            if not (lo * (1 - 1e-6) - 1e-12 <= v.risk <= hi * (1 + 1e-6) + 1e-12):
                res.bad("factor of another matrix", f"{ctx}: radius {v.risk}, w'Sw gives {lo}")
            obj = lambda u: mu @ u - lam * np.sqrt(u @ S @ u)
            if obj(w) < obj(np.asarray(clean.weights, float)) - lam * np.sqrt(kk) - 1e-5 * max(np.abs(mu).max(), lam * lo):
                res.bad("factor of another matrix", f"{ctx}: objective {obj(w)} vs {obj(np.asarray(clean.weights, float))}")
            if not np.array_equal(S, keep):
                res.bad("argument changed", ctx)
        self.ladder(case, res, build, judge, "robust")

    def run_rrp(self, case, res):
        L = boot.LIB
        S, n = self.pdm(case), case["n"]
        keep = S.copy()

        def build():
            o = L.RelaxedRiskParity(np.full(n, 0.05), S, -np.eye(n), np.zeros(n), np.ones((1, n)), np.ones(1))
            return o.solve(lambda_reg=0.0)

        def judge(v, clean, f, ctx):
            w, c = np.asarray(v.weights, float), np.asarray(clean.weights, float)
            kk = 0.0 if not f else 1e-12 * 10.0 ** (f - 1)
            if np.max(np.abs(w - c)) > 2e-3 + 20 * kk / case["scale"]:
                res.bad("factor of another matrix", f"{ctx}: weights {w} vs {c}")
            if not np.array_equal(S, keep):
                res.bad("argument changed", ctx)
        self.ladder(case, res, build, judge, "rrp")

    def run_niw(self, case, res):
        L = boot.LIB
        n = case["n"]
        S, S2 = self.pdm(case), matrix("pd", n, case["seed"] + 1, case["scale"])
        k1, k2 = S.copy(), S2.copy()
        r = rnd(case["seed"])
        m0, m1 = np.array([r.uniform(-.1, .1) for _ in range(n)]), np.array([r.uniform(-.1, .1) for _ in range(n)])

        def build():
            o = L.bayesian.NIWPosterior(m0, S, 5, n + 6)
            o.update(m1, S2, 30)
            return [np.asarray(q, float) for q in (o.get_mu_ce(), o.get_S_mu(), o.get_sigma_ce())]

        def judge(v, clean, f, ctx):
            kk = 0.0 if not f else 1e-12 * 10.0 ** (f - 1)
            for a, b in zip(v, clean):
                if np.max(np.abs(a - b)) > 2 * kk + 1e-12 * np.abs(b).max():
                    res.bad("factor of another matrix", f"{ctx}: {a.tolist()} vs {b.tolist()}")
            if not (np.array_equal(S, k1) and np.array_equal(S2, k2)):
                res.bad("argument changed", ctx)
        self.ladder(case, res, build, judge, "niw")

    def run_synth(self, case, res):
        L = boot.LIB
        n = case["n"]
        S = self.pdm(case)
        keep = S.copy()
        mu = np.linspace(0.0, 0.1, n)
        seed = case["seed"] % 1000

        def build():
            return np.asarray(L.FlexibleViewsProcessor(prior_mean=mu, prior_cov=S, num_scenarios=60, random_state=seed,
                                                       mean_views=np.r_[mu[0], [np.nan] * (n - 1)] if False else {"0": float(mu[0])}).R, float)
        Z = np.random.default_rng(seed).standard_normal((60, n))

        def judge(v, clean, f, ctx):
            kk = 0.0 if not f else 1e-12 * 10.0 ** (f - 1)
            Lt, *_ = np.linalg.lstsq(Z, v - mu, rcond=None)
            if np.max(np.abs(Z @ Lt - (v - mu))) > 1e-9 * max(1e-3, np.abs(v).max()):
                res.note("scenarios are drawn another way; factor not observable")
                return
            k, d = diag_shift(Lt.T @ Lt, S)
            if d > 1e-9 * case["scale"] or not (-1e-9 * case["scale"] <= k <= 1.01e-6 + kk * 1.01 + 1e-9 * case["scale"]):
                res.bad("factor of another matrix", f"{ctx}: shift {k:.3g}, beyond it {d:.3g}")
            if not np.array_equal(S, keep):
                res.bad("argument changed", ctx)
        self.ladder(case, res, build, judge, "synth")

    # -- estimators and operations that use them -------------------------------------------------
    def run_est(self, case, res):
        x = world.Ctx(case["cfg"])
        name, kw = case["est"]
        L = boot.LIB
        r = rnd(case["seed"])
        try:
            R = x.Rz if name == "glasso" else x.R
        except Exception:
            return
        before = canon.canon(R)
        fn = lambda: L.estimate_moments(R, cov_estimator=name, cov_kwargs=dict(kw))
        kind, v, fails, calls, heard, sim = self.sim(res, {}, fn)
        if kind != "ok":
            res.note("est", name, "clean refused", repr(v)[:80])
            return
        clean = np.asarray(v[1], float)
        lo = float(np.linalg.eigvalsh(0.5 * (clean + clean.T)).min())
        if lo < -1.1e-8:
            res.bad("result not positive semidefinite", f"{name} {kw}: {lo:.3g}")
        points = [q for q in sim.serial_ts.seam_list if q[0] == "linalg"]
        for _ in range(4):
            if not points:
                break
            q = points[int(r.random() * len(points))]
            plan = {(q[0], q[1] + e): {"act": "raise", "exc": "LinAlgError"} for e in range(r.choice([1, 1, 2, 4]))}
            if r.random() < 0.2:
                plan = {(q[0], q[1]): {"act": "raise", "exc": "MemoryError"}}
            kind, v, fails, calls, heard, sim = self.sim(res, plan, fn)
            ctx = f"{name} {kw} with {sim.fired} at {q[2]}#{q[1]}"
            res.sig("est", name, q[2], len(sim.fired), kind)
            res.note("est", ctx, "->", kind)
            if kind == "exc":
                continue
            got = np.asarray(v[1], float)
            if any("MemoryError" in s for s in sim.fired):
                res.bad("failure hidden", ctx)
            elif not np.all(np.isfinite(got)) or np.max(np.abs(got - clean)) > 1e-4 * np.abs(clean).max() + 5e-6 * (1 + np.abs(clean).max()):
                res.bad("failure hidden", f"{ctx}: {got.tolist()} vs {clean.tolist()}")
        if canon.diff(before, canon.canon(R)):
            res.bad("argument changed", name)

    def run_surface(self, case, res):
        """A linear-algebra failure inside an operation: an error, or the same answer up to a repair."""
        x = world.Ctx(case["cfg"])
        r = rnd(case["seed"])
        pr = common.try_prepare(x, {"op": case["op"], "p": case["p"]})
        if pr is None:
            return
        op, args, cb = pr
        kind, v, fails, calls, heard, sim = self.sim(res, {}, lambda: op.run(args))
        if kind != "ok":
            return
        clean = canon.canon(v)
        scale = float(np.abs(x.cov0).max())
        points = [q for q in sim.serial_ts.seam_list if q[0] == "linalg"]
        for _ in range(4):
            if not points:
                break
            q = points[int(r.random() * len(points))]
            many = r.choice([1, 1, 2, 3, 7])
            exc = r.choice(["LinAlgError", "LinAlgError", "MemoryError"])
            plan = {(q[0], q[1] + e): {"act": "raise", "exc": exc} for e in range(many)}
            pr = common.try_prepare(world.Ctx(case["cfg"]), {"op": case["op"], "p": case["p"]})
            op, args, cb = pr
            kind, v, fails, calls, heard, sim = self.sim(res, plan, lambda: op.run(args))
            ctx = f"{case['op']} {case['p']} with {len(sim.fired)}x{exc} at {q[2]}#{q[1]}"
            res.sig("surface", case["op"], q[2], exc, len(sim.fired), kind)
            res.note(ctx, "->", kind)
            if kind == "exc":
                continue
            if exc == "MemoryError" and sim.fired:
                res.bad("failure hidden", ctx)
            elif many <= 2:        # a repair of 1e-11 at most: nothing visible changes
                d = canon.diff(canon.tied(clean), canon.tied(canon.canon(v)), rtol=2e-2, atol=5e-3 * max(scale, 1e-6) ** 0.5)
                if d:
                    res.bad("failure hidden", f"{ctx}: {d}")
                if sum(fails) and not heard.runtime() and not heard.log:
                    res.bad("repair not announced", ctx)


CHECK = C10()
