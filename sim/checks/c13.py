"""C13: iterative estimators stop within their budget and never pass off a failed fit."""
import copy
import logging
import warnings

import numpy as np

from .. import boot, common, faults, sched
from ..common import Check, Result

KINDS = ["tyler", "tyler", "tyler", "glasso", "glasso", "glasso", "huber", "huber", "poet", "lw", "oas", "js", "jorion", "mom", "ewma", "est"]
DATA = ["normal", "normal", "t3", "t3", "outlier", "corr", "dup", "constcol", "zero", "short", "nan", "inf", "single", "int"]
REGULAR = ("normal", "t3", "outlier", "corr", "single")
WARN = logging.WARNING


def gen_data(r, kind, T, N, scale):
    A = np.eye(N) + 0.35 * r.normal(size=(N, N))
    if kind == "corr":
        A = 0.4 * A
        A[0] += 0.8
    Z = r.standard_t(3, size=(T, N)) if kind == "t3" else r.normal(size=(T, N))
    X = Z @ A
    if kind == "outlier":
        for _ in range(max(1, T // 15)):
            X[r.integers(T)] *= r.choice([8.0, 30.0])
    X = X * scale + scale * r.normal() * 0.2
    if kind == "dup" and N > 1:
        X[:, -1] = X[:, 0]
    elif kind == "constcol":
        X[:, r.integers(N)] = 0.5 * scale
    elif kind == "zero":
        X[:] = scale
    elif kind == "nan":
        X[r.integers(T), r.integers(N)] = np.nan
    elif kind == "inf":
        X[r.integers(T), r.integers(N)] = r.choice([np.inf, -np.inf])
    elif kind == "int":
        X = np.round(X / scale * 40).astype(int)
    return X


# -- references ---------------------------------------------------------------------------
def tyler_map(Z, Sig, s, T0):
    """Textbook regularised Tyler map on a trace-N shape matrix."""
    N = Sig.shape[0]
    q = np.einsum("ti,ij,tj->t", Z, np.linalg.inv(Sig), Z)
    M = (Z / q[:, None]).T @ Z
    M = 0.5 * (M + M.T) * N / np.trace(M)
    return (1 - s) * M + s * T0, q


def glasso_gap(S, P, a):
    """Duality gap of min -logdet P + tr(SP) + a sum_{i!=j}|P_ij| at P (0 at the optimum)."""
    s = np.trace(S) / len(S)
    S, P, a = S / s, P * s, a / s
    n = len(S)
    off = ~np.eye(n, dtype=bool)
    sg, ld = np.linalg.slogdet(P)
    if sg <= 0:
        return np.inf
    primal = -ld + np.sum(S * P) + a * np.abs(P[off]).sum()
    W = np.linalg.inv(P)
    W = np.where(off, np.clip(W, S - a, S + a), S)
    W = 0.5 * (W + W.T)
    sg, ldw = np.linalg.slogdet(W)
    return primal - (ldw + n) if sg > 0 else np.inf


def glasso_excess(S, P, a):
    """Objective at P above the best a long reference run finds."""
    s = np.trace(S) / len(S)
    S, P, a = S / s, P * s, a / s
    n = len(S)
    off = ~np.eye(n, dtype=bool)
    obj = lambda Q: -np.linalg.slogdet(Q)[1] + np.sum(S * Q) + a * np.abs(Q[off]).sum()
    Z, U, rho = np.linalg.inv(S + max(a, 1e-3) * np.eye(n)), np.zeros((n, n)), 1.0
    best = np.inf
    for it in range(5000):
        e, V = np.linalg.eigh(rho * (Z - U) - S)
        d = np.where(e > 0, (e + np.sqrt(e * e + 4 * rho)) / (2 * rho), 2 / (np.sqrt(e * e + 4 * rho) - np.minimum(e, 0)))
        Q = (V * d) @ V.T
        Y, Z0 = Q + U, Z
        Z = np.where(off, np.sign(Y) * np.maximum(np.abs(Y) - a / rho, 0), Y)
        U = U + Q - Z
        best = min(best, obj(Q))
        pr, du = np.linalg.norm(Q - Z), rho * np.linalg.norm(Z - Z0)
        if pr < 1e-9 * np.linalg.norm(Q) and du < 1e-9 * max(1, rho * np.linalg.norm(U)):
            break
        if it % 20 == 19 and (pr > 10 * du or du > 10 * pr):
            f = 2.0 if pr > du else 0.5
            rho, U = rho * f, U / f
    return obj(P) - best


def huber_tau(x):
    T = len(x)
    mu = np.median(x)
    return (1.4826 * np.median(np.abs(x - mu)) + 1e-12) * np.sqrt(T / max(np.log(max(T, 3)), 2.0))


def ref_lw(X, S, target):
    T, N = X.shape
    Y = X - X.mean(0)
    m = np.trace(S) / N
    pi = np.array([[np.mean((Y[:, i] * Y[:, j] - S[i, j]) ** 2) for j in range(N)] for i in range(N)])
    if target == "identity":
        F, rho = m * np.eye(N), 0.0
    else:
        sd = np.sqrt(np.diag(S))
        C = S / np.outer(sd, sd)
        rb = (C.sum() - N) / (N * (N - 1)) if N > 1 else 0.0
        F = rb * np.outer(sd, sd)
        np.fill_diagonal(F, np.diag(S))
        rho = np.trace(pi)
        for i in range(N):
            for j in range(N):
                if i != j:
                    th_i = np.mean((Y[:, i] ** 2 - S[i, i]) * (Y[:, i] * Y[:, j] - S[i, j]))
                    th_j = np.mean((Y[:, j] ** 2 - S[j, j]) * (Y[:, i] * Y[:, j] - S[i, j]))
                    rho += rb / 2 * (sd[j] / sd[i] * th_i + sd[i] / sd[j] * th_j)
    g = np.sum((S - F) ** 2)
    d = 0.0 if g <= 1e-28 * max(m * m, 1e-300) else min(max((pi.sum() - rho) / g / T, 0.0), 1.0)
    return d * F + (1 - d) * S


def ref_oas(X, centre):
    T, N = X.shape
    Y = X if centre else X - X.mean(0)
    S = Y.T @ Y / T
    if N == 1:
        return S
    t2, t1 = np.sum(S * S), np.trace(S)
    den = (T + 1 - 2 / N) * (t2 - t1 * t1 / N)
    rho = 1.0 if den <= 0 else min(((1 - 2 / N) * t2 + t1 * t1) / den, 1.0)
    return (1 - rho) * S + rho * t1 / N * np.eye(N)


def ref_js(mu, S, T, tgt):
    t = np.full_like(mu, mu.mean()) if tgt is None else tgt
    d = mu - t
    q = T * d @ np.linalg.pinv(S, rcond=1e-12) @ d
    return t + (0.0 if q <= 0 else max(0.0, 1 - (len(mu) - 2) / q)) * d


def ref_jorion(mu, S, T):
    N = len(mu)
    i = np.linalg.inv(S + 1e-8 * np.eye(N))
    g = i.sum(0) @ mu / i.sum()
    d = mu - g
    v = (N + 2) / (N + 2 + T * d @ i @ d)
    return mu - min(max(v, 0), 1) * d


def near(a, b, rtol, atol=0.0):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape or not np.all(np.isfinite(a)):
        return False
    return float(np.max(np.abs(a - b), initial=0.0)) <= rtol * float(np.max(np.abs(b), initial=0.0)) + atol


class C13(Check):
    id = "C13"
    n_quick = 4000
    n_thorough = 40000
    step_budget = 4_000_000
    rule = ("one case = one estimator on one seeded data set: a clean run judged against the textbook fixed point or optimum, the same run "
            "labelled and rescaled, then runs with single and persistent linear-algebra failures; non-trivial when a fault fired or the "
            "iteration budget was too small; distinct by estimator, data kind, budget, fault point and outcome")
    sig_measure = "(estimator, data kind, options, fault class and point, outcome)"

    def gen(self, rng, i, tier):
        kind = rng.choice(KINDS)
        c = {"kind": kind, "seed": rng.randrange(1 << 30), "data": rng.choice(DATA), "N": rng.choice([1, 2, 3, 4, 6]), "T": rng.choice([12, 30, 60, 150]),
             "scale": rng.choice([1.0, 0.05, 0.01, 1e-3, 1e-5, 1e3, 1e6]), "lab": rng.random() < 0.5, "opt": {}, "faults": []}
        o = c["opt"]
        if c["data"] == "short":
            c["T"] = rng.choice([1, 2, 3])
        if c["data"] == "single":
            c["N"] = 1
        if kind == "tyler":
            o.update(shrinkage=rng.choice([0.0, 0.0, 0.1, 0.5, 1.0]), tol=rng.choice([1e-6, 1e-6, 1e-3, 1e-9, 0.0]),
                     max_iter=rng.choice([200, 200, 1, 2, 3, 10, 50, 0]), ensure_psd=rng.random() < 0.8, target=rng.choice(["identity", "custom"]))
        elif kind == "huber":
            o.update(tol=rng.choice([1e-6, 1e-8, 1e-12, 0.0]), max_iter=rng.choice([200, 200, 1, 2, 5, 0]))
        elif kind == "glasso":
            o.update(alpha=rng.choice(["auto", "auto", "auto", 0.5, 0.3, 0.1, 0.05, 1.2, -0.1, 0.0]), assume_centered=rng.random() < 0.5)
        elif kind == "poet":
            o.update(k=rng.choice(["auto", "auto", 1, 2, 50, 0]), thresh=rng.choice(["auto", "auto", 0.0, 0.05, 10.0, -1.0]), standardize=rng.random() < 0.7)
        elif kind == "lw":
            o.update(target=rng.choice(["identity", "constant_correlation"]))
        elif kind == "oas":
            o.update(assume_centered=rng.random() < 0.5)
        elif kind == "js":
            o.update(target=rng.choice(["grand", "custom"]))
        elif kind == "mom":
            o.update(n_blocks=rng.choice(["auto", 1, 3, 5, 10000]), random_state=rng.randrange(1000))
        elif kind == "ewma":
            o.update(span=rng.choice([1, 5, 60, 252]))
        elif kind == "est":
            o.update(mean=rng.choice(["sample", "jorion", "james_stein", "huber", "mom"]), cov=rng.choice(["sample", "ledoit_wolf", "oas", "poet", "tyler", "glasso", "ewma"]),
                     p=rng.random() < 0.4)
        for _ in range(rng.choice([2, 4, 6])):
            c["faults"].append({"at": rng.random(), "how": rng.choice(["nan", "nan", "LinAlgError", "LinAlgError", "MemoryError", "KeyboardInterrupt"]),
                                "all": rng.choice([False, False, False, True, "name"]), "byname": rng.random() < 0.5})
        return c

    def shrink(self, case):
        for i in range(len(case["faults"])):
            c = copy.deepcopy(case)
            del c["faults"][i]
            yield c
        for k, v in (("lab", False), ("T", 12), ("N", 2), ("N", 3), ("scale", 1.0)):
            if case[k] != v and not (k in "TN" and case[k] < v):
                c = copy.deepcopy(case)
                c[k] = v
                yield c

    # -- one call ---------------------------------------------------------------------
    def call(self, X, c, lab, extra):
        """The library call of this case on X (labelled or not)."""
        import pandas as pd
        m = boot.LIB.moments
        o, k = c["opt"], c["kind"]
        T, N = X.shape
        names = [f"A{i}" for i in range(N)]
        V = lambda v: pd.Series(v, index=names) if lab else np.array(v)
        M = lambda v: pd.DataFrame(v, index=names, columns=names) if lab else np.array(v)
        R = pd.DataFrame(X.copy(), columns=names, index=[f"t{i}" for i in range(T)]) if lab else X.copy()
        if k == "tyler":
            kw = dict(o)
            kw["target"] = M(extra["target"]) if o["target"] == "custom" else "identity"
            return m.robust_covariance_tyler(R, **kw)
        if k == "glasso":
            a = o["alpha"]
            a = a if isinstance(a, str) else a * extra["aref"]
            return m.sparse_precision_glasso(R, alpha=a, assume_centered=o["assume_centered"], return_precision=True)
        if k == "huber":
            return m.robust_mean_huber(R, **o)
        if k == "poet":
            return m.factor_covariance_poet(R, return_decomp=True, **o)
        if k == "lw":
            return m.shrink_covariance_ledoit_wolf(R, M(extra["S"]), **o)
        if k == "oas":
            return m.shrink_covariance_oas(R, **o)
        if k == "js":
            return m.shrink_mean_james_stein(V(extra["mu"]), M(extra["S"]), T, **({} if o["target"] == "grand" else {"target": V(extra["tmu"])}))
        if k == "jorion":
            return m.shrink_mean_jorion(V(extra["mu"]), M(extra["S"]), T)
        if k == "mom":
            return m.robust_mean_median_of_means(R, **o)
        if k == "ewma":
            return m.covariance_ewma(R, **o)
        kw = {"mean_kwargs": {"random_state": 5}} if o["mean"] == "mom" else {}
        return m.estimate_moments(R, extra["p"] if o["p"] else None, mean_estimator=o["mean"], cov_estimator=o["cov"], **kw)

    def go(self, sim, key, X, c, lab, extra):
        """('ok', value, warned) or ('exc', error, warned)."""
        cap = common._Cap()
        lg = logging.getLogger("pyvallocation")
        lg.addHandler(cap)
        try:
            with warnings.catch_warnings(record=True) as ws, np.errstate(all="ignore"):
                warnings.simplefilter("always")
                sim.begin_op(key)
                kind, v = common.guarded(lambda: self.call(X, c, lab, extra))
        finally:
            lg.removeHandler(cap)
        said = any(r[1] >= WARN for r in cap.records) or any(not issubclass(w.category, RuntimeWarning) or "converge" in str(w.message) for w in ws)
        return kind, v, said

    # -- the run ------------------------------------------------------------------------
    def run(self, case):
        res = Result()
        c = case
        r = np.random.default_rng(c["seed"])
        N, T = c["N"], c["T"]
        X = gen_data(r, c["data"], T, N, c["scale"])
        Xf = X.astype(float)
        extra = {"tmu": r.normal(size=N) * c["scale"] * 0.1}
        B = r.normal(size=(N, N + 2))
        extra["target"] = B @ B.T / N * r.choice([1.0, 0.01, 50.0])
        p = r.random(T) + 0.2
        extra["p"] = p / p.sum()
        with np.errstate(all="ignore"):
            extra["mu"] = Xf.mean(0)
            extra["S"] = np.atleast_2d((Xf - Xf.mean(0)).T @ (Xf - Xf.mean(0)) / T)
            Y = Xf - (0 if c["opt"].get("assume_centered", True) else Xf.mean(0))
            E = Y.T @ Y / T
            off = np.abs(E - np.diag(np.diag(E)))
            extra["aref"] = float(max(np.max(off), 0.2 * np.trace(E) / N)) if np.all(np.isfinite(E)) else 1.0
            if not extra["aref"] > 0:
                extra["aref"] = 1.0
            extra["E"] = E
        with sched.Sim(seam_budget=50000, step_budget=self.step_budget) as sim:
            try:
                kind, v, said = self.go(sim, "clean", X, c, False, extra)
            except sched.SimBudget as e:
                res.bad("unbounded", f"{c['kind']}: {e}")
                return res.out()
            seams = list(sim.serial_ts.seam_list)
        res.take(sim)
        res.op(c["kind"])
        self.judge(res, c, X, extra, kind, v, said, len(seams))
        self.metamorphic(res, c, X, extra, kind, v, said)
        self.faulted(res, c, X, extra, kind, v, seams)
        if said:
            res.nontrivial = True
        res.sig(c["kind"], c["data"], sorted((k, str(x)) for k, x in c["opt"].items()), kind if kind == "ok" else type(v).__name__, said)
        return res.out()

    def vals(self, v):
        return [np.asarray(x, float) for x in (v if isinstance(v, tuple) else (v,))]

    # -- clean run ------------------------------------------------------------------------
    def judge(self, res, c, X, extra, kind, v, said, n_seams):
        k, o, data = c["kind"], c["opt"], c["data"]
        T, N = X.shape
        Xf = X.astype(float)
        finite = bool(np.all(np.isfinite(Xf)))
        mi = o.get("max_iter", 200)
        fits = 27 if o.get("alpha") == "auto" or o.get("cov") == "glasso" else 1
        if n_seams > 3 * fits * (mi + 12):
            res.bad("budget", f"{k}: {n_seams} linear-algebra calls with max_iter={mi}")
        invalid = (k in ("tyler",) and mi < 1) or (k == "glasso" and o["alpha"] != "auto" and o["alpha"] <= 0) or (
            k == "poet" and (o["k"] == 0 or (o["thresh"] != "auto" and o["thresh"] < 0))) or (k == "jorion" and N <= 2) or (
                k == "est" and o["mean"] == "jorion" and N <= 2)
        if kind == "exc":
            e = v
            if not isinstance(e, Exception):
                res.bad("odd-error", f"{k}: {type(e).__name__}")
            elif isinstance(e, (NameError, UnboundLocalError, AttributeError, TypeError, IndexError, KeyError, ZeroDivisionError, RecursionError)):
                res.bad("crash", f"{k} on {data} data: {type(e).__name__}: {e}")
            elif not invalid and data in REGULAR and T >= 12 and T > 2 * N:
                may = (k == "glasso" or (k == "est" and o["cov"] == "glasso")) and "converge" in str(e)
                if not may:
                    res.bad("refused", f"{k} refused regular data: {type(e).__name__}: {e}")
                else:
                    res.count("glasso_not_converged")
            return
        if invalid:
            res.bad("accepted-invalid", f"{k} accepted {o} with N={N}")
            return
        vs = self.vals(v)
        if not finite and k in ("tyler", "glasso", "huber", "poet", "lw", "oas", "js", "jorion") and not said:
            res.bad("nonfinite-data", f"{k} returned silently for {data} data")
            return
        if not finite or said:
            return
        covs = {"tyler": vs[:1], "glasso": vs, "poet": vs[:1], "lw": vs, "oas": vs, "ewma": vs, "est": vs[1:]}.get(k, [])
        for w in vs:
            if not np.all(np.isfinite(w)):
                res.bad("nonfinite", f"{k}: non-finite estimate returned silently")
                return
        for w in covs:
            if w.shape != (N, N):
                res.bad("shape", f"{k}: {w.shape}")
                return
            top = float(np.max(np.abs(w), initial=0.0))
            if not np.allclose(w, w.T, rtol=0, atol=1e-9 * top):
                res.bad("asymmetric", f"{k}: not symmetric")
            elif np.linalg.eigvalsh(w).min() < -1e-8 - 1e-9 * top and o.get("ensure_psd", True):
                res.bad("not-psd", f"{k}: eigenvalue {np.linalg.eigvalsh(w).min():.3g}")
        if len(vs[0]) != N:
            res.bad("shape", f"{k}: {vs[0].shape}")
            return
        getattr(self, "j_" + k, lambda *a: None)(res, c, Xf, extra, vs)

    def j_tyler(self, res, c, X, extra, vs):
        o = c["opt"]
        T, N = X.shape
        Z = X - X.mean(0)
        if T < 2:
            return
        S = np.atleast_2d(np.cov(Z, rowvar=False, ddof=1))
        C = vs[0]
        tr = np.trace(S)
        if tr <= 0:
            return
        if c["data"] in REGULAR + ("int",) and abs(np.trace(C) - tr) > (1.5 / T + 1e-3) * tr + N * 2.1e-6 * (np.linalg.eigvalsh(S).min() < 1e-7):
            res.bad("tyler-scale", f"total variance {np.trace(C):.6g}, the sample's is {tr:.6g}")
            return
        Sig = C * N / np.trace(C)
        ev = np.linalg.eigvalsh(Sig)
        if ev.min() < 1e-5 or T <= N + 1:
            return
        T0 = extra["target"] if o["target"] == "custom" else np.eye(N)
        T0 = T0 * N / np.trace(T0)
        F, q = tyler_map(Z / np.sqrt(tr / N), Sig, o["shrinkage"], T0)
        if q.min() < 3e-6:
            return
        gap = np.linalg.norm(F - Sig) / np.linalg.norm(Sig)
        if gap > 3 * o["tol"] + 1e-7:
            res.bad("tyler-fixed-point", f"returned silently, but the fixed-point equation is off by {gap:.3g} (tol {o['tol']}, max_iter {o['max_iter']})")
        res.count("tyler_fixed_points")

    def j_glasso(self, res, c, X, extra, vs):
        o = c["opt"]
        N = X.shape[1]
        E = extra["E"]
        d = np.diag(E)
        if d.min() < 1e-3 * d.max() or d.max() <= 0:
            return
        C, P = vs
        if not near(C @ P, np.eye(N), 0, 1e-5 * max(1.0, np.linalg.cond(P) * 1e-6)):
            res.bad("glasso-inverse", f"covariance and precision are not inverses: {np.abs(C @ P - np.eye(N)).max():.3g}")
            return
        mo = float(np.max(np.abs(E - np.diag(d)), initial=0.0))
        if o["alpha"] == "auto":
            alphas = np.geomspace(max(mo, 1e-6), max(mo, 1e-6) / 100, 5)
        else:
            alphas = [o["alpha"] * extra["aref"]]
        gap = min(glasso_gap(E, P, a) for a in alphas)
        lim = 2e-3 * N * max(1.0, max(alphas) / (np.trace(E) / N))
        if not gap <= lim:
            over = min(glasso_excess(E, P, a) for a in alphas)
            if not over <= 1e-3 * N:
                res.bad("glasso-optimum", f"returned silently {over:.3g} above the optimum (limit {1e-3 * N:.3g})")
        res.count("glasso_optima")

    def j_huber(self, res, c, X, extra, vs):
        o = c["opt"]
        for j in range(X.shape[1]):
            x, mu = X[:, j], vs[0][j]
            tau = huber_tau(x)
            w = np.minimum(1.0, tau / np.maximum(np.abs(x - mu), 1e-12))
            f = np.sum(w * x) / np.sum(w)
            if abs(f - mu) > 1.5 * o["tol"] * (abs(mu) + 1) + 1e-12 * (abs(mu) + np.abs(x).max()):
                res.bad("huber-fixed-point", f"returned silently {mu:.8g}, one more step gives {f:.8g} (tol {o['tol']}, max_iter {o['max_iter']})")
        res.count("huber_fixed_points")

    def j_poet(self, res, c, X, extra, vs):
        o = c["opt"]
        T, N = X.shape
        C, B, F = vs
        Xc = X - X.mean(0)
        S = np.atleast_2d(np.cov(Xc, rowvar=False, ddof=1))
        sd = np.where(Xc.std(0, ddof=1) > 1e-12, Xc.std(0, ddof=1), 1.0) if o["standardize"] else np.ones(N)
        psd = np.linalg.eigvalsh(C).min() > 1e-7 * max(np.trace(S), 1e-300)
        jit = 0.0 if psd and c["scale"] >= 1e-3 else 2.1e-6
        if not near(np.diag(C), np.diag(S), 1e-8, jit):
            res.bad("poet-variances", f"diagonal {np.diag(C)[:3]} against sample variances {np.diag(S)[:3]}")
        if B.shape[0] != N or F.shape[0] != T or B.shape[1] != F.shape[1]:
            res.bad("poet-decomposition", f"loadings {B.shape}, factors {F.shape}")
            return
        if isinstance(o["k"], int) and B.shape[1] != min(o["k"], N):
            res.bad("poet-decomposition", f"k={o['k']} gave {B.shape[1]} factors")
        corr = S / np.outer(sd, sd)
        low = B / sd[:, None]
        resid = corr - low @ low.T
        mask = ~np.eye(N, dtype=bool)
        tau = 0.0
        if N > 1:
            tau = np.median(np.abs(resid[mask])) * np.sqrt(np.log(max(N, 2)) / T) if o["thresh"] == "auto" else o["thresh"]
        want = resid.copy()
        want[mask] = np.sign(resid[mask]) * np.maximum(np.abs(resid[mask]) - tau, 0)
        want = (want + low @ low.T) * np.outer(sd, sd)
        if c["data"] != "zero" and not near(C - np.diag(np.diag(C)), want - np.diag(np.diag(want)), 1e-7, 1e-9 * np.trace(S)):
            res.bad("poet-parts", "covariance is not the low-rank part plus the thresholded residual")
        k = B.shape[1]
        ev = np.sort(np.linalg.eigvalsh(corr))[::-1][:k]
        if not near(np.sort(np.diag(low.T @ low))[::-1], np.maximum(ev, 0), 1e-6, 1e-9 * max(np.trace(corr), 0)):
            res.bad("poet-parts", "loadings do not carry the leading eigenvalues")

    def j_lw(self, res, c, X, extra, vs):
        S = extra["S"]
        if np.diag(S).min() <= 1e-6 * np.diag(S).max() or len(X) < 3:
            return
        want = ref_lw(X, S, c["opt"]["target"])
        if not near(vs[0], want, 1e-7, self.jit(want)):
            res.bad("lw-textbook", f"{vs[0].ravel()[:3]} against the textbook {want.ravel()[:3]}")

    def j_oas(self, res, c, X, extra, vs):
        want = ref_oas(X, c["opt"]["assume_centered"])
        E = extra["E"]
        t2, t1 = np.sum(E * E), np.trace(E)
        if len(E) > 1 and abs(t2 - t1 * t1 / len(E)) < 1e-9 * t2:
            return
        if not near(vs[0], want, 1e-7, self.jit(want)):
            res.bad("oas-textbook", f"{vs[0].ravel()[:3]} against the textbook {want.ravel()[:3]}")

    def jit(self, S):
        return 0.0 if np.linalg.eigvalsh(S).min() > -1e-9 else 2.1e-6

    def j_js(self, res, c, X, extra, vs):
        S, mu = extra["S"], extra["mu"]
        ev = np.linalg.eigvalsh(S)
        if ev.min() < 1e-9 * ev.max():
            return
        want = ref_js(mu, S, len(X), None if c["opt"]["target"] == "grand" else extra["tmu"])
        if not near(vs[0], want, 1e-6, 1e-12 * np.abs(mu).max()):
            res.bad("js-textbook", f"{vs[0][:3]} against the textbook {want[:3]}")

    def j_jorion(self, res, c, X, extra, vs):
        S, mu = extra["S"], extra["mu"]
        if np.linalg.cond(S + 1e-8 * np.eye(len(S))) > 1e9:
            return
        want = ref_jorion(mu, S, len(X))
        if not near(vs[0], want, 1e-6, 1e-9 * np.abs(mu).max()):
            res.bad("jorion-textbook", f"{vs[0][:3]} against the textbook {want[:3]}")

    def j_mom(self, res, c, X, extra, vs):
        o = c["opt"]
        v = vs[0]
        eps = 1e-9 * np.abs(X).max()
        if np.any(v < X.min(0) - eps) or np.any(v > X.max(0) + eps):
            res.bad("mom-range", "estimate outside the data range")
        if o["n_blocks"] == 1 and not near(v, X.mean(0), 1e-9, eps):
            res.bad("mom-mean", "one block is not the mean")
        if o["n_blocks"] == 10000 and not near(v, np.median(X, 0), 1e-9, eps):
            res.bad("mom-median", "single observations per block are not the median")

    def j_ewma(self, res, c, X, extra, vs):
        lam = 1 - 2 / (c["opt"]["span"] + 1)
        T = len(X)
        w = np.array([(1 - lam) * lam ** (T - 1 - t) if t else lam ** (T - 1) for t in range(T)])
        want = (X * w[:, None]).T @ X
        if not near(vs[0], want, 1e-9, 1e-12 * np.max(np.abs(X)) ** 2):
            res.bad("ewma-textbook", f"{vs[0].ravel()[:3]} against {want.ravel()[:3]}")

    def j_est(self, res, c, X, extra, vs):
        """The front door agrees with the estimators called one by one."""
        o = c["opt"]
        m = boot.LIB.moments
        T, N = X.shape
        p = extra["p"] if o["p"] else np.full(T, 1 / T)
        mu = X.T @ p
        S = (X - mu).T @ ((X - mu) * p[:, None])
        with np.errstate(all="ignore"), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            wm = {"sample": lambda: mu, "jorion": lambda: m.shrink_mean_jorion(mu, S, T), "james_stein": lambda: m.shrink_mean_james_stein(mu, S, T),
                  "huber": lambda: m.robust_mean_huber(X), "mom": lambda: m.robust_mean_median_of_means(X, random_state=5)}[o["mean"]]
            wc = {"sample": lambda: S, "ledoit_wolf": lambda: m.shrink_covariance_ledoit_wolf(X, S), "oas": lambda: m.shrink_covariance_oas(X),
                  "poet": lambda: m.factor_covariance_poet(X), "tyler": lambda: m.robust_covariance_tyler(X), "glasso": lambda: m.sparse_precision_glasso(X),
                  "ewma": lambda: m.covariance_ewma(X)}[o["cov"]]
            a, b = common.guarded(wm), common.guarded(wc)
        if a[0] == "ok" and c["data"] in REGULAR and not near(vs[0], a[1], 1e-6, 1e-12 * np.abs(X).max()):
            res.bad("est-mean", f"estimate_moments mean {o['mean']} differs from the estimator itself")
        if b[0] == "ok" and c["data"] in REGULAR and not near(vs[1], b[1], 1e-6):
            res.bad("est-cov", f"estimate_moments covariance {o['cov']} differs from the estimator itself")

    # -- labels, order, scale ----------------------------------------------------------------
    def metamorphic(self, res, c, X, extra, kind, v, said):
        k = c["kind"]
        T, N = X.shape
        names = [f"A{i}" for i in range(N)]
        with sched.Sim(seam_budget=50000, step_budget=self.step_budget) as sim:
            k2, v2, said2 = self.go(sim, "lab", X, c, True, extra)
        regular = c["data"] in REGULAR + ("int",) and T > N + 1
        if not regular and (kind, k2) != ("ok", "ok"):   # rank-deficient data: rounding, hence memory layout, decides
            pass
        elif (k2 == "ok") != (kind == "ok"):
            res.bad("labels-outcome", f"{k}: {kind} without labels, {k2} with: {v if kind == 'exc' else v2}")
        elif kind == "ok":
            if said != said2 and regular and c["opt"].get("tol", 1) > 0:
                res.bad("labels-outcome", f"{k}: warned {said} without labels, {said2} with")
            parts = list(zip(self.vals(v), self.vals(v2)))
            if k == "poet":            # signs of loadings are free: compare their product with the factors
                (_, _), (B1, B2), (F1, F2) = parts
                parts = [parts[0], (F1 @ B1.T, F2 @ B2.T)]
            for j, (a, b) in enumerate(parts):
                if not regular and (j or c["data"] in ("nan", "inf", "zero") or k in ("est", "js", "jorion", "tyler")):
                    continue
                if a.shape != b.shape or not np.allclose(a, b, rtol=1e-8, atol=(1e-5 if j else 1e-8) * np.max(np.abs(a), initial=0.0), equal_nan=True):
                    res.bad("labels-values", f"{k}: part {j} differs with labels")
            first = (v2 if isinstance(v2, tuple) else (v2,))[0]
            if list(getattr(first, "index", [])) != names:
                res.bad("labels-lost", f"{k}: labels {list(getattr(first, 'index', []))}")
            if k == "poet":
                if list(v2[1].index) != names or list(v2[2].index) != [f"t{i}" for i in range(T)] or list(v2[1].columns) != list(v2[2].columns):
                    res.bad("labels-lost", "poet decomposition labels")
        if kind != "ok" or c["data"] not in REGULAR or T <= 2 * N or said:
            return
        f = 8.0 if c["scale"] < 1 else 0.125
        homog = {"tyler": 2, "glasso": 2, "oas": 2, "lw": 2, "poet": 2, "ewma": 2, "mom": 1}.get(k)
        if homog and np.linalg.cond(extra["S"]) < 1e5 and c["scale"] >= 1e-3 and not (k == "glasso" and c["opt"]["alpha"] == "auto") and not (
                k == "poet" and not c["opt"]["standardize"] and c["opt"]["thresh"] not in ("auto", 0.0)):
            e2 = dict(extra, S=extra["S"] * f * f, aref=extra["aref"] * f * f)
            with sched.Sim(seam_budget=50000, step_budget=self.step_budget) as sim:
                k3, v3, said3 = self.go(sim, "scale", X.astype(float) * f, c, False, e2)
            if k3 != "ok" or said3:
                res.bad("scale-outcome", f"{k}: fine on the data, {k3} ({v3 if k3 == 'exc' else 'warned'}) on the data times {f}")
            elif not near(self.vals(v3)[0], self.vals(v)[0] * f ** homog, 1e-5):
                res.bad("scale", f"{k}: data times {f} does not scale the estimate by {f ** homog}")
        if N > 1 and k in ("tyler", "glasso", "oas", "lw", "poet", "ewma", "huber", "mom", "js", "jorion") and np.linalg.cond(extra["S"]) < 1e5:
            q = np.roll(np.arange(N), 1)
            e2 = dict(extra, S=extra["S"][np.ix_(q, q)], mu=extra["mu"][q], tmu=extra["tmu"][q], target=extra["target"][np.ix_(q, q)])
            with sched.Sim(seam_budget=50000, step_budget=self.step_budget) as sim:
                k4, v4, said4 = self.go(sim, "perm", X[:, q], c, False, e2)
            if k4 != "ok":
                res.bad("order-outcome", f"{k}: fine in one asset order, fails in another: {v4}")
            else:
                a, b = self.vals(v)[0], self.vals(v4)[0]
                a = a[np.ix_(q, q)] if a.ndim == 2 else a[q]
                tol = 1e-5 + 3 * c["opt"].get("tol", 0) if k != "glasso" else 5e-3
                if not near(b, a, tol, 3 * c["opt"].get("tol", 0) if k == "huber" else 0):
                    res.bad("order", f"{k}: the estimate depends on the order of the assets")

    # -- failures inside -----------------------------------------------------------------------
    def faulted(self, res, c, X, extra, kind, v, seams):
        if kind != "ok" or not seams or c["data"] not in REGULAR:
            return
        k = c["kind"]
        if c["scale"] < 0.05:          # a rescued factorisation may add 1e-8..1e-6 to the diagonal
            f = 0.05 / c["scale"]
            X, c = X * f, dict(c, scale=0.05)
            extra = dict(extra, mu=extra["mu"] * f, S=extra["S"] * f * f, tmu=extra["tmu"] * f, aref=extra["aref"] * f * f, E=extra["E"] * f * f)
            with sched.Sim(seam_budget=50000, step_budget=self.step_budget) as sim:
                kind, v, _ = self.go(sim, "clean2", X, c, False, extra)
            seams = list(sim.serial_ts.seam_list)
            if kind != "ok":
                return
        clean = self.vals(v)
        for i, f in enumerate(c["faults"]):
            pool = seams
            if f["byname"]:            # rare functions are as likely as frequent ones
                by = sorted({s[2] for s in seams})
                pool = [s for s in seams if s[2] == by[int(f["at"] * 7919) % len(by)]]
            cls, n, name = pool[min(int(f["at"] * len(pool)), len(pool) - 1)]
            act = {"act": "nan"} if f["how"] == "nan" else {"act": "raise", "exc": f["how"]}
            key = f"f{i}"
            plan = {(key, cls, "*"): act} if f["all"] is True else {(key, cls, n): act}
            if f["all"] == "name":
                plan = {(key, cls, s[1]): act for s in seams if s[2] == name}
            with sched.Sim(plan, seam_budget=50000, step_budget=self.step_budget) as sim:
                try:
                    k2, v2, said = self.go(sim, key, X, c, False, extra)
                except sched.SimBudget as e:
                    res.bad("unbounded-fault", f"{k} with {f['how']} at {name}: {e}")
                    continue
            res.take(sim)
            if not sim.fired:
                continue
            res.note(k, f["how"], f["all"] or n, name, k2)
            res.sig(k, name, n, f["how"], f["all"], k2 if k2 == "ok" else type(v2).__name__)
            if k2 == "exc":
                if not isinstance(v2, Exception) and not common.is_injected(v2):
                    res.bad("odd-error", f"{k}: {type(v2).__name__}")
                elif isinstance(v2, (NameError, UnboundLocalError, AttributeError, IndexError)) and not common.is_injected(v2):
                    res.bad("crash", f"{k} with {f['how']} at {name}: {type(v2).__name__}: {v2}")
                continue
            res.count("rescued")
            if f["how"] in ("MemoryError", "KeyboardInterrupt"):
                res.bad("swallowed", f"{k}: {f['how']} at {name} did not reach the caller")
                continue
            got = self.vals(v2)
            tol = 2e-2 if k == "glasso" or (k == "est" and c["opt"]["cov"] == "glasso") else 1e-6 + 5 * c["opt"].get("tol", 0)
            if k == "est" and c["opt"]["cov"] == "tyler":
                tol = 1e-5
            for j, (a, b) in enumerate(zip(clean, got)):
                if not near(b, a, tol, 1e-6 * c["scale"] if a.ndim == 1 else 0):
                    res.bad("passed-off", f"{k}: after {f['how']} at {name}{' (repeatedly)' if f['all'] else ''} the call still returned, and part {j} is not the estimate: "
                            f"{np.asarray(b).ravel()[:3]} instead of {np.asarray(a).ravel()[:3]}")
                    break


CHECK = C13()
