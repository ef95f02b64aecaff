"""Independent reference model of the portfolio problems: feasible sets, objectives, optima, reported numbers.

Nothing here calls the library.  Reference optima come from cvxopt / HiGHS on rescaled data with tight tolerances.
"""
import numpy as np

OPTS = {"show_progress": False, "abstol": 1e-11, "reltol": 1e-10, "feastol": 1e-10, "maxiters": 200, "refinement": 2}
LADDER = [OPTS, {"show_progress": False, "abstol": 1e-9, "reltol": 1e-8, "feastol": 1e-9, "maxiters": 100},
          {"show_progress": False, "abstol": 1e-8, "reltol": 1e-7, "feastol": 1e-8, "maxiters": 100}]


def attempt(fn):
    """Solution of fn(options) at the tightest tolerances that work."""
    err = None
    for o in LADDER:
        try:
            sol = fn(o)
        except (ArithmeticError, ValueError) as e:
            err = e
            continue
        if sol["status"] in ("optimal", "primal infeasible", "dual infeasible"):
            return sol
        err = err or sol
    if isinstance(err, dict):
        return err
    raise err


def feasible_set(kind, n):
    """(G, h, A, b) of a constraint kind of the world, written out by hand."""
    G, h, A, b = [], [], [np.ones(n)], [1.0]
    e = np.eye(n)
    lo, hi = np.zeros(n), np.full(n, np.inf)
    if kind == 1:
        hi[:] = max(0.6, 1.5 / n)
    elif kind == 2:
        lo[0], hi[0] = 0.02, 0.8
        hi[n - 1] = 0.75 if n > 1 else hi[n - 1]
    elif kind == 3:
        G.append(e[0] - e[1])
        h.append(0.25)
        g = e[0] + e[n - 1] if n > 2 else e[0]
        G += [g, -g]
        h += [0.9, -0.05]
    elif kind == 4:
        hi[:] = 0.9
        G.append(e[0] + e[1])
        h.append(0.9 if n > 2 else 1.05)
    elif kind == 5:
        lo[:], hi[:] = -0.3, 1.2
    elif kind in (6, 7):
        A.append(e[0] - e[1])
        b.append(0.0)
    for i in range(n):
        if np.isfinite(lo[i]):
            G.append(-e[i])
            h.append(-lo[i])
        if np.isfinite(hi[i]):
            G.append(e[i])
            h.append(hi[i])
    return np.array(G), np.array(h), np.array(A), np.array(b)


def log2simple(mu, S):
    m = np.expm1(mu + 0.5 * np.diag(S))
    return m, np.outer(1 + m, 1 + m) * np.expm1(S)


def tail_mean(x, p, alpha):
    """Rockafellar-Uryasev CVaR of the losses -x at tail probability alpha."""
    o = np.argsort(x)
    x, p = x[o], p[o]
    c = np.concatenate([[0.0], np.cumsum(p)])
    take = np.clip(np.minimum(c[1:], alpha) - c[:-1], 0.0, None)
    return -float(take @ x) / alpha


class Problem:
    """One portfolio problem: data in the optimisation space, reporting space, feasible set and costs."""

    def __init__(self, n, mu=None, S=None, R=None, p=None, unc=None, kind=0, mu_rep=None, S_rep=None,
                 w0=None, impact=None, prop=None):
        self.n = n
        self.mu, self.S, self.R, self.p = mu, S, R, p
        self.unc = S if unc is None else unc
        self.kind = kind
        self.G, self.h, self.A, self.b = feasible_set(kind, n)
        self.mu_rep = mu if mu_rep is None else mu_rep
        self.S_rep = S if S_rep is None else S_rep
        self.w0, self.impact, self.prop = w0, impact, prop
        self._ref = {}

    # -- feasibility ------------------------------------------------------
    def violation(self, w):
        return max(float(np.max(self.G @ w - self.h)), float(np.max(np.abs(self.A @ w - self.b))))

    def max_return(self, mean):
        from scipy.optimize import linprog
        s = np.max(np.abs(mean)) or 1.0
        r = linprog(-mean / s, self.G, self.h, self.A, self.b, bounds=(None, None))
        return -r.fun * s if r.status == 0 else None

    # -- objectives -------------------------------------------------------
    def f_mv(self, w):
        v = float(w @ self.S @ w)
        if self.w0 is not None and self.impact is not None:
            v += float(self.impact @ (w - self.w0) ** 2)
        return v

    def trade(self, w):
        return float(self.prop @ np.abs(w - self.w0)) if self.w0 is not None and self.prop is not None else 0.0

    def f_cvar(self, w, alpha):
        return tail_mean(self.R @ w, self.p, alpha) + self.trade(w)

    def radius(self, w):
        return float(np.sqrt(max(w @ self.unc @ w, 0.0)))

    def f_rob(self, w, lam):
        return -float(self.mu @ w) + lam * self.radius(w) + self.trade(w)

    # -- reference optima ---------------------------------------------------
    def _memo(self, key, fn):
        if key not in self._ref:
            try:
                self._ref[key] = fn()
            except Exception:
                self._ref[key] = None
        return self._ref[key]

    def ref_mv(self, target=None):
        def go():
            from cvxopt import matrix, solvers
            s = np.max(np.abs(self.S))
            P, q = 2 * self.S / s, np.zeros(self.n)
            if self.w0 is not None and self.impact is not None:
                P = P + 2 * np.diag(self.impact) / s
                q = -2 * self.impact * self.w0 / s
            G, h = self.G, self.h
            if target is not None:
                m = np.max(np.abs(self.mu)) or 1.0
                G, h = np.vstack([G, -self.mu / m]), np.append(h, -target / m)
            sol = attempt(lambda o: solvers.qp(matrix(P), matrix(q), matrix(G), matrix(h), matrix(self.A), matrix(self.b), options=o))
            return self._usable(sol, G, h, lambda w: self.f_mv(w))
        return self._memo(("mv", target), go)

    def _usable(self, sol, G, h, f, gap=1e-7):
        w = np.array(sol["x"]).ravel()[: self.n]
        if sol["status"] != "optimal":
            g = sol.get("relative gap")
            g = sol.get("gap") if g is None else g
            if sol["status"] != "unknown" or g is None or g > gap:
                return None
        if np.max(G @ w - h) > 1e-7 or np.max(np.abs(self.A @ w - self.b)) > 1e-7:
            return None
        return f(w)

    def ref_cvar(self, alpha, target=None, mean=None):
        def go():
            from scipy.optimize import linprog
            n, T = self.n, self.R.shape[0]
            cost = self.w0 is not None and self.prop is not None
            k = 2 * n if cost else 0
            s = np.max(np.abs(self.R))
            c = np.concatenate([np.zeros(n), [1.0], self.p / alpha, np.concatenate([self.prop, self.prop]) / s if cost else []])
            pad = np.zeros((self.G.shape[0], 1 + T + k))
            rows = [np.hstack([-self.R / s, -np.ones((T, 1)), -np.eye(T), np.zeros((T, k))]), np.hstack([self.G, pad])]
            rhs = [np.zeros(T), self.h]
            if target is not None:
                m = mean if mean is not None else self.p @ self.R
                z = np.max(np.abs(m)) or 1.0
                rows.append(np.hstack([-m / z, np.zeros(1 + T + k)])[None])
                rhs.append([-target / z])
            A = [np.hstack([self.A, np.zeros((self.A.shape[0], 1 + T + k))])]
            b = [self.b]
            if cost:
                A.append(np.hstack([np.eye(n), np.zeros((n, 1 + T)), -np.eye(n), np.eye(n)]))
                b.append(self.w0)
            bd = [(None, None)] * (n + 1) + [(0, None)] * (T + k)
            r = linprog(c, np.vstack(rows), np.hstack(rhs), np.vstack(A), np.hstack(b), bounds=bd)
            return r.fun * s if r.status == 0 else None
        return self._memo(("cvar", alpha, target), go)

    def ref_rob(self, lam, cap=None):
        """Least -mu'w + lam*radius (+ trading), optionally with radius <= cap; 'infeasible' if the cap cannot be met."""
        def go():
            from cvxopt import matrix, solvers
            n = self.n
            cost = self.w0 is not None and self.prop is not None
            k = 2 * n if cost else 0
            L = np.linalg.cholesky(self.unc)
            rs = np.sqrt(np.max(np.diag(self.unc)))
            s = max(np.max(np.abs(self.mu)), lam * rs, 1e-12)
            nv = n + 1 + k
            c = np.concatenate([-self.mu / s, [lam * rs / s + 1e-12], np.concatenate([self.prop, self.prop]) / s if cost else []])
            G = [np.hstack([self.G, np.zeros((self.G.shape[0], 1 + k))])]
            h = [self.h]
            if k:
                G.append(np.hstack([np.zeros((k, n + 1)), -np.eye(k)]))
                h.append(np.zeros(k))
            if cap is not None:
                row = np.zeros(nv)
                row[n] = 1.0
                G.append(row[None])
                h.append([cap / rs])
            else:      # the radius is bounded anyway; keep the epigraph variable bounded when lam = 0
                row = np.zeros(nv)
                row[n] = 1.0
                G.append(row[None])
                h.append([10.0 * n])
            soc = np.zeros((n + 1, nv))
            soc[0, n] = -1.0
            soc[1:, :n] = -L.T / rs
            nl = sum(len(x) for x in h)
            A = [np.hstack([self.A, np.zeros((self.A.shape[0], 1 + k))])]
            b = [self.b]
            if cost:
                A.append(np.hstack([np.eye(n), np.zeros((n, 1)), -np.eye(n), np.eye(n)]))
                b.append(self.w0)
            sol = attempt(lambda o: solvers.conelp(matrix(c), matrix(np.vstack(G + [soc])), matrix(np.hstack(h + [np.zeros(n + 1)])),
                                                   {"l": nl, "q": [n + 1], "s": []}, matrix(np.vstack(A)), matrix(np.hstack(b)), options=o))
            if sol["status"] == "primal infeasible":
                return "infeasible"
            return self._usable(sol, self.G, self.h, lambda w: self.f_rob(w, lam))
        return self._memo(("rob", lam, cap), go)

    def ref_sharpe(self, rf):
        """Largest (mu - rf)'w / sqrt(w'Sw) over the feasible set (None if no positive excess)."""
        def go():
            from cvxopt import matrix, solvers
            ex = self.mu - rf
            m = self.max_return(self.mu)
            if m is None or m - rf <= 1e-6 * np.max(np.abs(self.mu)):
                return None
            s = np.max(np.abs(self.S))
            z = np.max(np.abs(ex))
            # y = k w with k >= 0: G y <= h k, A y = b k, ex'y/z = 1
            n = self.n
            P = np.zeros((n + 1, n + 1))
            P[:n, :n] = 2 * self.S / s
            G = np.vstack([np.hstack([self.G, -self.h[:, None]]), np.append(np.zeros(n), -1.0)[None]])
            A = np.vstack([np.hstack([self.A, -self.b[:, None]]), np.append(ex / z, 0.0)[None]])
            b = np.append(np.zeros(self.A.shape[0]), 1.0)
            sol = attempt(lambda o: solvers.qp(matrix(P), matrix(np.zeros(n + 1)), matrix(G), matrix(np.zeros(G.shape[0])), matrix(A), matrix(b), options=o))
            y = np.array(sol["x"]).ravel()
            if sol["status"] != "optimal" and (sol.get("relative gap") or 1) > 1e-6:
                return None
            w = y[:n] / y[:n].sum()
            return float(ex @ w) / np.sqrt(w @ self.S @ w)
        return self._memo(("sharpe", rf), go)


class RiskParity:
    """The relaxed risk parity programme in its own variables.

    minimise  sqrt(x'Sx/n + lam * sum(S_ii x_i^2)) - min_i sqrt(x_i (Sx)_i / b_i)
    over the feasible set, x >= 0, Sx >= 0, mu'x >= target.
    """

    def __init__(self, P, budgets=None):
        self.P, self.n = P, P.n
        self.b = np.full(P.n, 1.0 / P.n) if budgets is None else np.asarray(budgets, float) / np.sum(budgets)
        self._ref = {}

    def value(self, x, lam):
        z = self.P.S @ x
        q2 = float(x @ z)
        psi = np.sqrt(max(q2, 0.0) / self.n + lam * float(np.diag(self.P.S) @ x ** 2))
        return psi - float(np.sqrt(np.min(np.clip(x * z, 0.0, None) / self.b)))

    def violation(self, x):
        return max(self.P.violation(x), float(-np.min(x)))

    def max_return(self):
        from scipy.optimize import linprog
        P = self.P
        s = np.max(np.abs(P.mu)) or 1.0
        r = linprog(-P.mu / s, P.G, P.h, P.A, P.b, bounds=(0, None))
        return -r.fun * s if r.status == 0 else None

    def pure(self):
        """Risk budgeting portfolio by the logarithmic barrier (no constraints but the budget)."""
        S, b = self.P.S, self.b
        s = np.mean(np.diag(S))
        x = np.sqrt(b / (np.diag(S) / s))
        for _ in range(200):
            g = S @ x / s - b / x
            H = S / s + np.diag(b / x ** 2)
            d = np.linalg.solve(H, -g)
            t = 1.0
            while np.min(x + t * d) <= 0:
                t *= 0.5
            x = x + 0.99 * t * d if t < 1 else x + d
            if np.max(np.abs(d)) < 1e-14 * np.max(x):
                break
        return x / x.sum()

    def ref(self, lam, target=None):
        key = (lam, target)
        if key not in self._ref:
            try:
                self._ref[key] = self._solve(lam, target)
            except Exception:
                self._ref[key] = None
        return self._ref[key]

    def _solve(self, lam, target):
        from cvxopt import matrix, solvers
        P, n = self.P, self.n
        s = np.max(np.diag(P.S))
        S = P.S / s
        L = np.linalg.cholesky(S)
        D = np.sqrt(np.diag(S))
        nv = n + 2                       # x, psi, gamma;  Sx is substituted
        c = np.zeros(nv)
        c[n], c[n + 1] = 1.0, -1.0
        G = [np.hstack([P.G, np.zeros((P.G.shape[0], 2))]), np.hstack([-np.eye(n), np.zeros((n, 2))]), np.hstack([-S, np.zeros((n, 2))])]
        h = [P.h, np.zeros(n), np.zeros(n)]
        if target is not None:
            m = np.max(np.abs(P.mu)) or 1.0
            G.append(np.hstack([-P.mu / m, np.zeros(2)])[None])
            h.append([-target / m])
        nl = sum(len(v) for v in h)
        q = []
        blk = np.zeros((1 + n + (n if lam > 0 else 0), nv))
        blk[0, n] = -1.0
        blk[1:n + 1, :n] = -L.T / np.sqrt(n)
        if lam > 0:
            blk[n + 1:, :n] = -np.sqrt(lam) * np.diag(D)
        G.append(blk)
        h.append(np.zeros(blk.shape[0]))
        q.append(blk.shape[0])
        for i in range(n):
            blk = np.zeros((3, nv))
            e = np.zeros(n)
            e[i] = 1.0
            blk[0, :n] = -(e + S[i])
            blk[1, n + 1] = -2.0 * np.sqrt(self.b[i])
            blk[2, :n] = -(e - S[i])
            G.append(blk)
            h.append(np.zeros(3))
            q.append(3)
        A = np.hstack([P.A, np.zeros((P.A.shape[0], 2))])
        sol = attempt(lambda o: solvers.conelp(matrix(c), matrix(np.vstack(G)), matrix(np.hstack(h)), {"l": nl, "q": q, "s": []}, matrix(A), matrix(P.b), options=o))
        if sol["status"] == "primal infeasible":
            return "infeasible"
        x = np.array(sol["x"]).ravel()[:n]
        if sol["status"] != "optimal" and not (sol.get("gap") is not None and sol["gap"] < 1e-7):
            return None
        if self.violation(x) > 1e-7:
            return None
        return self.value(np.clip(x, 0, None), lam)


# -- problems of the simulated world ----------------------------------------------------
def wrapper_data(x, w):
    """Optimisation and reporting data of the world's wrappers."""
    n, T = x.cfg["N"], x.cfg["T"]
    p = x.p0 if x.p0 is not None else np.full(T, 1.0 / T)
    d = {}
    if w in ("m", "b", "k", "h"):
        d.update(mu=x.mu0, S=x.spd0)
    elif w == "l":
        mu, S = log2simple(x.mu0, x.spd0)
        d.update(mu=mu, S=S)
    elif w == "r":
        mu = np.asarray(x.rbp.mu, float).ravel()
        S = np.asarray(x.rbp.sigma, float)
        mr, Sr = log2simple(mu, S)
        d.update(mu=mu, S=S, unc=np.asarray(x.rbp.mean_uncertainty_cov_log(), float), mu_rep=mr, S_rep=Sr)
    if w in ("s", "b", "k", "h"):
        d.update(R=x.R0, p=p)
    if w == "s":
        d.update(mu=p @ x.R0)
    return d


def cost_data(x):
    n = x.cfg["N"]
    return dict(w0=np.full(n, 1.0 / n), impact=np.full(n, 0.02) * np.mean(np.diag(x.cov0)) * 10,
                prop=np.full(n, 0.02) * float(np.mean(np.abs(x.mu0))))


def wrapper_problem(x, par):
    """The problem an operation on world wrapper par['w'] with constraint kind par['c'] and costs poses."""
    w, kind = par["w"], par.get("c", 0)
    if kind == 0 and w == "k":
        kind = 3
    d = wrapper_data(x, w)
    if par.get("costs") or w == "k":
        d.update(cost_data(x))
    elif w == "h":
        d.update(w0=x.w0, impact=cost_data(x)["impact"])
    return Problem(x.cfg["N"], kind=kind, **d)
