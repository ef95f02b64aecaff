"""The simulated user's world: data, library objects and the operations a user performs on them.

Everything is a deterministic function of (seed, cfg).  Library objects are built lazily and
outside any fault plan; operations run under the simulator.
"""
import zlib

import numpy as np
import pandas as pd

from . import boot, seams

NAMES = ["MSCI", "Bund", "gold", "Cash", "EM", "FX_carry", "Alt", "bond2"]


def gen_cfg(rng, n=(2, 5), t=(20, 45), fmt=True):
    return {
        "seed": rng.randrange(1 << 30),
        "N": rng.randint(*n),
        "T": rng.randint(*t),
        "lab": rng.random() < 0.5,
        "scale": rng.choice(["annual", "daily", "daily", "monthly"]),
        "p": rng.choice([None, "decay", "random"]),
        "fmt": rng.choice(["c", "c", "f", "ro"]) if fmt else "c",
        "neg": rng.random() < 0.15,
        "ill": rng.random() < 0.12,
    }


SHRINK_CFG = [("N", 2), ("N", 3), ("T", 20), ("lab", False), ("p", None), ("fmt", "c"), ("neg", False),
              ("ill", False), ("scale", "monthly"), ("k", 1.0)]


def shrink_cfg(cfg):
    for k, v in SHRINK_CFG:
        if cfg.get(k, 1.0 if k == "k" else None) != v and not (k == "N" and v == 3 and cfg["N"] <= 3):
            c = dict(cfg)
            c[k] = v
            yield c


class Ctx:
    """Lazily built shared objects."""

    def __init__(self, cfg):
        self.cfg = cfg
        self._c = {}

    def rng(self, name):
        return np.random.Generator(np.random.PCG64([self.cfg["seed"], zlib.crc32(name.encode())]))

    def __getattr__(self, name):
        if name.startswith("_") or name == "cfg":
            raise AttributeError(name)
        c = self._c
        if name not in c:
            f = getattr(type(self), "mk_" + name)
            act, seams.ACTIVE = seams.ACTIVE, None      # never inside the fault plan
            try:
                c[name] = f(self)
            finally:
                seams.ACTIVE = act
        return c[name]

    def built(self):
        return self._c

    # -- formats --------------------------------------------------------
    def fmt(self, a):
        a = np.array(a, dtype=float)
        f = self.cfg["fmt"]
        if f == "f" and a.ndim == 2:
            a = np.asfortranarray(a)
        if f == "ro":
            a.setflags(write=False)
        return a

    def vec(self, v, name=None):
        if self.cfg["lab"]:
            return pd.Series(np.array(v, float), index=self.names, name=name)
        return self.fmt(v)

    def mat(self, m):
        if self.cfg["lab"]:
            return pd.DataFrame(np.array(m, float), index=self.names, columns=self.names)
        return self.fmt(m)

    def tab(self, m, cols=None):
        if self.cfg["lab"]:
            idx = pd.bdate_range("2020-01-01", periods=m.shape[0])
            return pd.DataFrame(np.array(m, float), index=idx, columns=cols or self.names)
        return self.fmt(m)

    # -- raw data -------------------------------------------------------
    def mk_names(self):
        r = self.rng("names")
        return [NAMES[i] for i in r.permutation(len(NAMES))[: self.cfg["N"]]]

    def mk_R0(self):
        c = self.cfg
        r = self.rng("R")
        N, T = c["N"], c["T"]
        s = {"annual": 0.18, "monthly": 0.05, "daily": 0.011}[c["scale"]]
        vol = s * r.uniform(0.4, 1.8, N)
        f = r.standard_normal((T, 1))
        e = r.standard_normal((T, N))
        beta = r.uniform(-0.2 if not c["neg"] else -0.9, 0.8, N)
        z = f * beta + e * np.sqrt(1 - beta ** 2)
        fat = np.sqrt(5.0 / r.chisquare(5, (T, 1)))
        mean = s * r.uniform(0.02, 0.45, N)
        if c["neg"]:
            mean = -mean
        R = mean + vol * np.clip(z * fat, -4, 4)
        if c["ill"] and N >= 3:
            R[:, -1] = R[:, 0] + 1e-7 * s * r.standard_normal(T)
        return np.clip(R, -0.85, 4.0) * c.get("k", 1.0)

    def mk_R(self):
        return self.tab(self.R0)

    def mk_Rz(self):
        return self.tab(2.0 * (self.R0 - self.R0.mean(0) * 0.5) / self.R0.std(0))

    def mk_df(self):
        idx = pd.bdate_range("2020-01-01", periods=self.R0.shape[0])
        return pd.DataFrame(self.R0.copy(), index=idx, columns=self.names)

    def mk_p0(self):
        k, T = self.cfg["p"], self.cfg["T"]
        if k is None:
            return None
        if k == "decay":
            w = 0.5 ** (np.arange(T)[::-1] / (T / 2.0))
        else:
            w = self.rng("p").uniform(0.3, 1.7, T)
        return w / w.sum()

    def mk_p(self):
        if self.p0 is None:
            return None
        if self.cfg["lab"]:
            return pd.Series(self.p0.copy(), index=self.R.index)
        return self.fmt(self.p0)

    def mk_mu0(self):
        p = self.p0 if self.p0 is not None else np.full(self.cfg["T"], 1.0 / self.cfg["T"])
        return p @ self.R0

    def mk_cov0(self):
        p = self.p0 if self.p0 is not None else np.full(self.cfg["T"], 1.0 / self.cfg["T"])
        X = self.R0 - self.mu0
        S = (X * p[:, None]).T @ X
        return 0.5 * (S + S.T)

    def mk_mu(self):
        return self.vec(self.mu0, "mu")

    def mk_cov(self):
        return self.mat(self.cov0)

    def mk_spd0(self):
        """A comfortably positive definite covariance of the same scale."""
        return self.cov0 + 0.05 * np.mean(np.diag(self.cov0)) * np.eye(self.cfg["N"])

    def mk_spd(self):
        return self.mat(self.spd0)

    def mk_w0(self):
        w = self.rng("w0").dirichlet(np.full(self.cfg["N"], 2.0))
        return w / w.sum()

    def mk_w(self):
        return self.vec(self.w0, "w")

    def mk_w2(self):
        w = self.rng("w2").dirichlet(np.full(self.cfg["N"], 2.0))
        return self.vec(w)

    def mk_wshort(self):
        w = self.w0.copy()
        w[0] -= 0.3 + w[0]
        w[1] += 0.3 + self.w0[0]
        return self.vec(w)

    def mk_W(self):
        """Several sample portfolios (N, M)."""
        M = 5
        W = self.rng("W").dirichlet(np.full(self.cfg["N"], 1.5), M).T
        if self.cfg["lab"]:
            return pd.DataFrame(W, index=self.names, columns=[f"s{i}" for i in range(M)])
        return self.fmt(W)

    def mk_price_path(self):
        P = 100 * np.cumprod(1 + np.clip(self.R0, -0.5, 1.0), axis=0)
        return self.tab(P)

    def mk_prices(self):
        pr = np.round(self.rng("px").uniform(3, 250, self.cfg["N"]), 2)
        return pd.Series(pr, index=self.names)

    def mk_views_prior(self):
        return self.df if self.cfg["lab"] else self.fmt(self.R0)

    def asset(self, i):
        """Key of asset i in view dictionaries."""
        return self.names[i] if self.cfg["lab"] else str(i)

    def focus(self):
        return self.fmt(self.R0[:, 0])

    # -- library objects ------------------------------------------------
    def mk_costs(self):
        L = boot.LIB
        N = self.cfg["N"]
        return L.portfolioapi.TransactionCosts(
            initial_weights=self.vec(np.full(N, 1.0 / N)),
            market_impact_costs=self.vec(np.full(N, 0.02) * np.mean(np.diag(self.cov0)) * 10),
            proportional_costs=self.vec(np.full(N, 0.02) * float(np.mean(np.abs(self.mu0)))))

    def constraints(self, kind):
        """A fresh Constraints object or dictionary of the given kind."""
        C = boot.LIB.utils.constraints.Constraints
        N = self.cfg["N"]
        if kind == 0:
            return None
        if kind == 1:
            return C(long_only=True, total_weight=1.0, bounds=(0.0, max(0.6, 1.5 / N)))
        if kind == 2:
            return {"long_only": True, "total_weight": 1.0,
                    "bounds": {0: (0.02, 0.8), N - 1: (0.0, 0.75)}}
        if kind == 3:
            return C(long_only=True, total_weight=1.0, relative_bounds=[(0, 1, 0.25)],
                     group_constraints={"g": ([0, N - 1] if N > 2 else [0], 0.05, 0.9)})
        if kind == 4:
            row = [0.0] * N
            row[0] = 1.0
            row[1] = 1.0
            return C(long_only=True, total_weight=1.0, bounds=[(0.0, 0.9)] * N,
                     additional_G_h=[(row, 0.9 if N > 2 else 1.05)])
        if kind == 5:
            return C(long_only=False, total_weight=1.0, bounds=(-0.3, 1.2))
        if kind == 6:
            row = [0.0] * N
            row[0] = 1.0
            row[1] = -1.0
            return C(long_only=True, total_weight=1.0, additional_A_b=[(row, 0.0)])
        if kind == 7:        # no budget row; only for risk parity, which is always fully invested
            row = [0.0] * N
            row[0] = 1.0
            row[1] = -1.0
            return C(long_only=True, total_weight=None, additional_A_b=[(row, 0.0)])
        raise KeyError(kind)

    def mk_dist_m(self):
        return boot.LIB.portfolioapi.AssetsDistribution(mu=self.mu, cov=self.spd)

    def mk_dist_s(self):
        return boot.LIB.portfolioapi.AssetsDistribution(scenarios=self.R, probabilities=self.p)

    def mk_dist_b(self):
        return boot.LIB.portfolioapi.AssetsDistribution(mu=self.mu, cov=self.spd, scenarios=self.R,
                                                        probabilities=self.p)

    def mk_wrap_m(self):
        return boot.LIB.PortfolioWrapper.from_moments(self.mu, self.spd)

    def mk_wrap_s(self):
        return boot.LIB.PortfolioWrapper.from_scenarios(self.R, probabilities=self.p)

    def mk_wrap_b(self):
        return boot.LIB.PortfolioWrapper(self.dist_b)

    def mk_wrap_k(self):
        """With constraints and costs baked in."""
        return boot.LIB.PortfolioWrapper(self.dist_b, constraints=self.constraints(3), costs=self.costs)

    def mk_wrap_h(self):
        """Current holdings and market impact, no proportional costs."""
        t = boot.LIB.portfolioapi.TransactionCosts(initial_weights=self.w, market_impact_costs=self.costs.market_impact_costs)
        return boot.LIB.PortfolioWrapper(self.dist_b, costs=t)

    def mk_wrap_l(self):
        return boot.LIB.PortfolioWrapper.from_moments(self.mu, self.spd, return_type="log")

    def mk_wrap_r(self):
        return boot.LIB.PortfolioWrapper.from_robust_posterior(self.rbp)

    def niw_args(self):
        N, T = self.cfg["N"], self.cfg["T"]
        return dict(prior_mu=self.vec(np.full(N, float(self.mu0.mean()))),
                    prior_sigma=self.mat(np.diag(np.diag(self.spd0))), t0=7, nu0=N + 9)

    def niw_update(self):
        return dict(sample_mu=self.mu, sample_sigma=self.spd, n_obs=self.cfg["T"])

    def mk_niw(self):
        n = boot.LIB.bayesian.NIWPosterior(**self.niw_args())
        n.update(**self.niw_update())
        return n

    def mk_rbp(self):
        return boot.LIB.bayesian.RobustBayesPosterior.from_niw(**self.niw_args(), **self.niw_update())

    def mk_fr_v(self):
        return self.wrap_b.variance_frontier(5)

    def mk_fr_c(self):
        return self.wrap_b.cvar_frontier(4, alpha=0.1)

    def mk_fr_r(self):
        return self.wrap_b.robust_lambda_frontier(4, max_lambda=1.5)

    def mk_fr_p(self):
        return self.wrap_b.relaxed_risk_parity_frontier(3, 1.4)

    def frontier(self, k):
        return getattr(self, "fr_" + k)

    def mk_fvp(self):
        mu = float(self.mu0[0])
        for k in (0.05, 0.02, 0.1, -1.0):
            try:
                return boot.LIB.views.FlexibleViewsProcessor(
                    self.views_prior, mean_views={self.asset(0): (">=", mu + k * float(self.R0[:, 0].std()))})
            except RuntimeError:
                pass
        return boot.LIB.views.FlexibleViewsProcessor(self.views_prior)

    def mk_blp(self):
        return boot.LIB.views.BlackLittermanProcessor(
            prior_cov=self.spd, prior_mean=self.mu,
            mean_views={self.names[0] if self.cfg["lab"] else 0: float(self.mu0[0]) * 1.1})

    def mk_repricer(self):
        y0 = np.log(self.prices.to_numpy(dtype=float))
        return boot.LIB.make_repricing_fn(np.exp, y0)


# ---------------------------------------------------------------------------
class Callbacks:
    """Simulator-owned user functions; each consults the active simulator's fault plan."""

    def __init__(self):
        self.n = {}
        self.rec = []            # (name, tag, copies of array arguments)

    def fn(self, name, f, tag=None, keep=False):
        def user_callback(*a, **k):
            i = self.n.get(name, 0)
            self.n[name] = i + 1
            self.rec.append((name, tag, tuple(np.array(v, float) if isinstance(v, np.ndarray) else v for v in a)
                             if keep else None))
            sim = seams.ACTIVE
            if sim is not None:
                sim.callback(name)
            return f(*a, **k)
        user_callback.__name__ = "user_" + name
        return user_callback


FORCE_SEED = None        # "int" or "np": the type seeds are passed as


def seed_arg(s):
    if FORCE_SEED:
        return int(s) if FORCE_SEED == "int" else np.int64(s)
    return np.int64(s) if isinstance(s, int) and s % 3 == 1 else s


OPS = {}


class Op:
    __slots__ = ("name", "tags", "gen", "args", "run")

    def __init__(self, name, tags, gen, args, run):
        self.name, self.tags, self.gen, self.args, self.run = name, frozenset(tags.split()), gen, args, run


def reg(name, tags, gen, args, run):
    OPS[name] = Op(name, tags, gen, args, run)


def none(rng, cfg):
    return {}


def _seed(rng):
    return rng.choice([0, 1, 2, 5, 7, 13, 99, 12345, 2 ** 31 + 7])


# -- estimators -----------------------------------------------------------------
MEANS = {"sample": [{}], "jorion": [{}], "james_stein": [{}, {"target": "grand_mean"}],
         "huber": [{}, {"tol": 1e-8}],
         "median_of_means": [{"n_blocks": 4, "random_state": 3}, {"random_state": 0}, {"n_blocks": 5, "random_state": 11}]}
COVS = {"sample": [{}], "ledoit_wolf": [{}, {"target": "constant_correlation"}], "oas": [{}, {"assume_centered": False}],
        "poet": [{}, {"k": 1}, {"k": 1, "thresh": 0.3}, {"standardize": False}],
        "tyler": [{}, {"shrinkage": 0.2}, {"shrinkage": 0.1, "ensure_psd": False}],
        "glasso": [{}, {"alpha": 0.3}, {"assume_centered": False, "alpha": 0.2}], "ewma": [{}, {"span": 20}]}


def g_est(rng, cfg):
    m = rng.choice([m for m in sorted(MEANS) if cfg["N"] > 2 or m != "jorion"])
    c = rng.choice(sorted(COVS))
    return {"m": m, "mk": rng.choice(MEANS[m]), "c": c, "ck": rng.choice(COVS[c]), "p": rng.random() < 0.4}


reg("estimate_moments", "est", g_est,
    lambda x, p, cb: dict(R=x.Rz if p["c"] == "glasso" else x.R, p=x.p if p["p"] else None, mk=dict(p["mk"]), ck=dict(p["ck"]), m=p["m"], c=p["c"]),
    lambda a: boot.LIB.estimate_moments(a["R"], a["p"], mean_estimator=a["m"], cov_estimator=a["c"],
                                        mean_kwargs=a["mk"], cov_kwargs=a["ck"]))
reg("tyler", "est", lambda r, c: {"k": r.choice([{}, {"shrinkage": 0.15}, {"target": "mat", "shrinkage": 0.3}, {"tol": 1e-9}])},
    lambda x, p, cb: dict(R=x.R, k={k: (x.spd if v == "mat" else v) for k, v in p["k"].items()}),
    lambda a: boot.LIB.moments.robust_covariance_tyler(a["R"], **a["k"]))
reg("glasso", "est", lambda r, c: {"k": r.choice([{}, {"alpha": 0.4}, {"alpha": 0.2, "assume_centered": False}, {"alpha": 0.3, "return_precision": True}])},
    lambda x, p, cb: dict(R=x.Rz, k=dict(p["k"])), lambda a: boot.LIB.moments.sparse_precision_glasso(a["R"], **a["k"]))
reg("poet", "est", lambda r, c: {"k": r.choice([{"k": 1, "return_decomp": True}, {"return_decomp": True}, {"k": 2, "thresh": 0.2} if c["N"] > 2 else {}])},
    lambda x, p, cb: dict(R=x.R, k=dict(p["k"])), lambda a: boot.LIB.moments.factor_covariance_poet(a["R"], **a["k"]))
reg("huber", "est", lambda r, c: {"k": r.choice([{}, {}, {"tol": 1e-10}, {"allow_vectorized": False}])},
    lambda x, p, cb: dict(R=x.R, k=dict(p["k"])), lambda a: boot.LIB.moments.robust_mean_huber(a["R"], **a["k"]))
reg("median_of_means", "est rand", lambda r, c: {"nb": r.choice(["auto", 3, 5]), "seed": _seed(r)},
    lambda x, p, cb: dict(R=x.R, nb=p["nb"], seed=seed_arg(p["seed"])),
    lambda a: boot.LIB.moments.robust_mean_median_of_means(a["R"], n_blocks=a["nb"], random_state=a["seed"]))
reg("shrink_mean", "est", lambda r, c: {"k": r.choice(["jorion", "james_stein", "js_target"] if c["N"] > 2 else ["james_stein"])},
    lambda x, p, cb: dict(mu=x.mu, S=x.spd, T=x.cfg["T"], t=x.vec(x.mu0 * 0.5), k=p["k"]),
    lambda a: boot.LIB.moments.shrink_mean_jorion(a["mu"], a["S"], a["T"]) if a["k"] == "jorion"
    else boot.LIB.moments.shrink_mean_james_stein(a["mu"], a["S"], a["T"], **({"target": a["t"]} if a["k"] == "js_target" else {})))
reg("shrink_cov", "est", lambda r, c: {"k": r.choice(["lw_i", "lw_c", "oas", "ewma"])},
    lambda x, p, cb: dict(R=x.R, S=x.cov, k=p["k"]),
    lambda a: {"lw_i": lambda: boot.LIB.moments.shrink_covariance_ledoit_wolf(a["R"], a["S"]),
               "lw_c": lambda: boot.LIB.moments.shrink_covariance_ledoit_wolf(a["R"], a["S"], target="constant_correlation"),
               "oas": lambda: boot.LIB.moments.shrink_covariance_oas(a["R"]),
               "ewma": lambda: boot.LIB.moments.covariance_ewma(a["R"], span=15)}[a["k"]]())
reg("probabilities", "est", lambda r, c: {"k": r.choice(["exp", "kernel", "kernel2", "ens"])},
    lambda x, p, cb: dict(k=p["k"], x=x.focus(), p=x.fmt(x.p0 if x.p0 is not None else np.full(x.cfg["T"], 1 / x.cfg["T"]))),
    lambda a: {"exp": lambda: boot.LIB.probabilities.generate_exp_decay_probabilities(a["x"].size, 9),
               "kernel": lambda: boot.LIB.probabilities.generate_gaussian_kernel_probabilities(a["x"]),
               "kernel2": lambda: boot.LIB.probabilities.generate_gaussian_kernel_probabilities(a["x"], h=0.02, x_T=0.0),
               "ens": lambda: (boot.LIB.probabilities.compute_effective_number_scenarios(a["p"]),
                               boot.LIB.probabilities.compute_effective_number_scenarios_hhi(a["p"]),
                               boot.LIB.probabilities.resolve_probabilities(a["p"], a["p"].size))}[a["k"]]())

# -- Bayes ----------------------------------------------------------------------
BL_OMEGA = ["idzorek", "none", "vec", "mat"]


def g_bl(rng, cfg):
    return {"src": rng.choice(["pm", "mw"]), "om": rng.choice(BL_OMEGA), "rel": rng.random() < 0.5, "tau": rng.choice([0.05, 0.2])}


def a_bl(x, p, cb):
    N = x.cfg["N"]
    k = (lambda i: x.names[i]) if x.cfg["lab"] else (lambda i: i)
    views = {k(0): float(x.mu0[0] * 1.3)}
    if p["rel"]:
        views[(k(1), k(0))] = float(0.1 * np.sqrt(x.spd0[1, 1]))
    K = len(views)
    om = {"idzorek": "idzorek", "none": None, "vec": x.fmt(np.full(K, 0.01) * x.spd0[0, 0]),
          "mat": x.fmt(np.eye(K) * 0.02 * x.spd0[0, 0])}[p["om"]]
    kw = dict(prior_cov=x.spd, tau=p["tau"], mean_views=views, omega=om, view_confidences={v: 0.6 for v in views})
    kw["prior_mean" if p["src"] == "pm" else "market_weights"] = x.mu if p["src"] == "pm" else x.w
    return dict(kw=kw)


reg("black_litterman", "bayes", g_bl, a_bl, lambda a: boot.LIB.moments.posterior_moments_black_litterman(**a["kw"]))
reg("bl_processor", "bayes", g_bl, a_bl, lambda a: boot.LIB.views.BlackLittermanProcessor(**a["kw"]).get_posterior())
reg("niw_moments", "bayes", lambda r, c: {"u": r.random() < 0.5},
    lambda x, p, cb: dict(kw=dict(**x.niw_args(), **x.niw_update()), u=p["u"]),
    lambda a: (boot.LIB.moments.posterior_moments_niw_with_uncertainty if a["u"] else boot.LIB.moments.posterior_moments_niw)(**a["kw"]))


def r_niw(a):
    n = boot.LIB.bayesian.NIWPosterior(**a["a"])
    n.update(**a["u"])
    return (n.get_mu_ce(), n.get_S_mu(), n.get_sigma_ce(), n.cred_radius_mu(0.9), n.cred_radius_sigma_factor(0.9))


reg("niw_lifecycle", "bayes", none, lambda x, p, cb: dict(a=x.niw_args(), u=x.niw_update()), r_niw)
reg("niw_read", "bayes read", none, lambda x, p, cb: dict(n=x.niw),
    lambda a: (a["n"].get_mu_ce(), a["n"].get_S_mu(), a["n"].get_sigma_ce(), a["n"].cred_radius_mu(0.8), a["n"].cred_radius_sigma_factor(0.8)))
reg("robust_bayes", "bayes", none, lambda x, p, cb: dict(kw=dict(**x.niw_args(), **x.niw_update())),
    lambda a: r_rbp(boot.LIB.bayesian.RobustBayesPosterior.from_niw(**a["kw"])))
reg("robust_bayes_read", "bayes read", none, lambda x, p, cb: dict(r=x.rbp), lambda a: r_rbp(a["r"]))


def r_rbp(r):
    return (r.mu, r.sigma, r.s_mu, r.sigma1, r.cred_radius_mu(0.7), r.cred_radius_sigma_factor(0.7),
            r.mean_uncertainty_cov_log(annualization_factor=4.0), r.mean_uncertainty_cov_simple(annualization_factor=4.0),
            r.mean_uncertainty_cov_simple(exact=True))


# -- views ----------------------------------------------------------------------
VIEW_KINDS = ["mean", "mean_pair", "mean_between", "vol", "var", "corr", "skew", "quantile", "cvar", "rank"]


def view_kwargs(x, kinds, strength=0.12, idx=None):
    """Feasible-looking views of the requested kinds (i-th kind on asset i mod N)."""
    R, N = x.R0, x.cfg["N"]
    p = x.p0 if x.p0 is not None else np.full(R.shape[0], 1.0 / R.shape[0])
    mu, sd = x.mu0, np.sqrt(np.diag(x.cov0))
    kw = {}
    for j, k in enumerate(kinds):
        i = j % N
        i2 = (j + 1) % N
        a, b = x.asset(i), x.asset(i2)
        if k == "mean":
            kw.setdefault("mean_views", {})[a] = float(mu[i] + strength * sd[i])
        elif k == "mean_pair":
            kw.setdefault("mean_views", {})[(a, b)] = (">=", float(mu[i] - mu[i2] + strength * 0.5 * sd[i]))
        elif k == "mean_between":
            kw.setdefault("mean_views", {})[a] = ("between", float(mu[i] + 0.3 * strength * sd[i]), float(mu[i] + strength * sd[i]))
        elif k == "vol":
            kw.setdefault("vol_views", {})[a] = ("<=", float(sd[i] * (1 - 0.5 * strength)))
        elif k == "var":
            kw.setdefault("var_views", {})[a] = float(sd[i] ** 2 * (1 - 0.7 * strength))
        elif k == "corr":
            c = x.cov0[i, i2] / (sd[i] * sd[i2])
            kw.setdefault("corr_views", {})[(a, b)] = float(np.clip(c + strength * (1 if c < 0.5 else -1), -0.9, 0.9))
        elif k == "skew":
            s = float(p @ ((R[:, i] - mu[i]) / sd[i]) ** 3)
            kw.setdefault("skew_views", {})[a] = ("<=" if s > 0 else ">=", s * 0.9)
        elif k == "quantile":
            lv = float(np.sort(R[:, i])[max(2, R.shape[0] // 6)])
            kw.setdefault("quantile_views", {})[a] = (lv, float(p @ (R[:, i] <= lv)) * (1 + strength))
        elif k == "cvar":
            o = np.argsort(R[:, i])
            kk = max(2, R.shape[0] // 8)
            kw.setdefault("cvar_views", {})[a] = (float(R[o[:kk], i].mean() * (1 + 0.02)), 0.15)
        elif k == "rank":
            o = np.argsort(-mu)[: min(3, N)]
            kw["rank_mean"] = [x.asset(int(q)) for q in o]
    return kw


def g_views(rng, cfg):
    n = rng.choice([0, 1, 1, 2, 2, 3])
    return {"kinds": rng.sample(VIEW_KINDS, n), "seq": rng.random() < 0.35, "p": rng.random() < 0.6,
            "st": rng.choice([0.05, 0.12, 0.3])}


def a_views(x, p, cb):
    kw = view_kwargs(x, p["kinds"], p["st"])
    kw["sequential"] = p["seq"]
    return dict(R=x.views_prior, p=(x.vec_p() if p["p"] else None), kw=kw)


def _vec_p(self):
    return None if self.p0 is None else (pd.Series(self.p0.copy(), index=self.df.index) if self.cfg["lab"] else self.fmt(self.p0))


Ctx.vec_p = _vec_p


def r_views(a):
    v = boot.LIB.views.FlexibleViewsProcessor(a["R"], a["p"], **a["kw"])
    return (v.get_posterior_probabilities(), v.get_posterior())


reg("views", "views", g_views, a_views, r_views)
reg("views_read", "views read", none, lambda x, p, cb: dict(v=x.fvp),
    lambda a: (a["v"].get_posterior_probabilities(), a["v"].get_posterior(), a["v"].get_scenarios()))


def g_synth(rng, cfg):
    return {"seed": _seed(rng), "n": rng.choice([40, 80]), "fn": rng.choice([None, "rng", "norng"]), "kinds": rng.choice([[], ["mean"]])}


def a_synth(x, p, cb):
    kw = dict(prior_mean=x.mu, prior_cov=x.spd, num_scenarios=p["n"], random_state=seed_arg(p["seed"]))
    if p["kinds"]:
        kw["mean_views"] = {x.asset(0): (">=", float(x.mu0[0]))}
    if p["fn"] == "rng":
        kw["distribution_fn"] = cb.fn("distribution_fn", lambda mu, cov, n, rng: mu + rng.standard_normal((n, len(mu))) @ np.linalg.cholesky(cov).T)
    elif p["fn"] == "norng":
        kw["distribution_fn"] = cb3(cb.fn("distribution_fn", lambda mu, cov, n: mu + np.sin(np.arange(n * len(mu)).reshape(n, -1)) * np.sqrt(np.diag(cov))))
    return dict(kw=kw)


def cb3(f):
    """Give a callback an explicit three-argument signature."""
    def user_distribution(mu, cov, n):
        return f(mu, cov, n)
    return user_distribution


def r_synth(a):
    v = boot.LIB.views.FlexibleViewsProcessor(**a["kw"])
    return (v.get_scenarios(), v.get_posterior_probabilities(), v.get_posterior())


reg("views_synth", "views rand cb", g_synth, a_synth, r_synth)


def g_ep(rng, cfg):
    return {"method": rng.choice([None, "TNC", "L-BFGS-B"]), "G": rng.random() < 0.5, "st": rng.choice([0.05, 0.2])}


def a_ep(x, p, cb):
    S = x.cfg["T"]
    pr = x.p0 if x.p0 is not None else np.full(S, 1.0 / S)
    A = np.vstack([np.ones(S), x.R0[:, 0]])
    b = np.array([1.0, x.mu0[0] + p["st"] * np.sqrt(x.cov0[0, 0])])
    G = h = None
    if p["G"]:
        G = x.fmt(x.R0[:, 1:2].T)
        h = x.fmt(np.array([x.mu0[1] - 0.1 * p["st"] * np.sqrt(x.cov0[1, 1])]).reshape(-1, 1))
    return dict(p=x.fmt(pr.reshape(-1, 1)), A=x.fmt(A), b=x.fmt(b.reshape(-1, 1)), G=G, h=h, m=p["method"])


reg("entropy_pooling", "views", g_ep, a_ep,
    lambda a: boot.LIB.views.entropy_pooling(a["p"], a["A"], a["b"], a["G"], a["h"], **({"method": a["m"]} if a["m"] else {})))


# -- projection -----------------------------------------------------------------
def g_proj(rng, cfg):
    return {"h": rng.choice([1, 2, 5]), "n": rng.choice([20, 60]), "seed": _seed(rng), "p": rng.random() < 0.5,
            "re": rng.choice(["none", "exp", "cb", "made", "shared"])}


def repricer(x, kind, cb):
    L = boot.LIB
    if kind == "none":
        return None
    if kind == "exp":
        return L.utils.projection.reprice_exp
    if kind == "cb":
        return cb.fn("reprice", np.expm1, keep=True)
    if kind == "shared":
        return x.repricer
    if kind == "made":
        return L.make_repricing_fn(cb.fn("pricing_fn", np.exp), np.zeros(x.cfg["N"]))
    if kind == "dict":
        n = x.names
        return {"opt": ((n[0], n[1]), cb.fn("inst", lambda d: 0.7 * d[:, 0] - 0.2 * d[:, 1], tag="opt", keep=True)),
                n[0]: cb.fn("inst", np.expm1, tag=n[0], keep=True),
                "bond": (n[1], cb.fn("inst", lambda d: -0.5 * d, tag="bond", keep=True))}
    raise KeyError(kind)


reg("project_scenarios", "proj rand cb", g_proj,
    lambda x, p, cb: dict(R=x.R, p=x.p if p["p"] else None, re=repricer(x, p["re"], cb), h=p["h"], n=p["n"], s=seed_arg(p["seed"])),
    lambda a: boot.LIB.project_scenarios(a["R"], a["h"], p=a["p"], n_simulations=a["n"], reprice=a["re"], seed=a["s"]))
reg("simulate_paths", "proj rand cb", g_proj,
    lambda x, p, cb: dict(R=x.R, p=x.p if p["p"] else None, re=repricer(x, p["re"], cb), h=p["h"], n=p["n"], s=seed_arg(p["seed"])),
    lambda a: boot.LIB.utils.projection.simulate_paths(a["R"], a["h"], a["n"], p=a["p"], reprice=a["re"], seed=a["s"]))
reg("horizon_report", "proj rand cb",
    lambda r, c: dict(g_proj(r, c), hs=r.choice([[1, 3], [4, 13], [2], [5, 2, 9]]), c=r.choice([0.9, 0.95])),
    lambda x, p, cb: dict(R=x.R, w=x.w, p=x.p if p["p"] else None, re=repricer(x, p["re"], cb), hs=list(p["hs"]), n=p["n"], s=seed_arg(p["seed"]), c=p["c"]),
    lambda a: boot.LIB.utils.performance.horizon_report(a["w"], a["R"], horizons=a["hs"], n_simulations=a["n"], p=a["p"], reprice=a["re"], confidence=a["c"], seed=a["s"]))
reg("drawdown_quantile", "proj rand cb", g_proj,
    lambda x, p, cb: dict(R=x.R, w=x.w, p=x.p if p["p"] else None, re=repricer(x, p["re"], cb), h=p["h"], n=p["n"], s=seed_arg(p["seed"])),
    lambda a: boot.LIB.utils.performance.drawdown_quantile(a["w"], a["R"], a["h"], n_paths=a["n"], p=a["p"], reprice=a["re"], seed=a["s"]))


def g_stinv(rng, cfg):
    return {"h": rng.choice([1, 3]), "n": rng.choice([30, 60]), "seed": _seed(rng), "re": rng.choice(["cb", "exp", "dict", "made"]),
            "v": rng.random() < 0.5}


def a_stinv(x, p, cb):
    re = p["re"] if x.cfg["lab"] or p["re"] != "dict" else "cb"
    n = 3 if re == "dict" else x.cfg["N"]
    w = np.arange(1, n + 1, dtype=float)
    v = {x.asset(0): (">=", float(x.mu0[0] + 0.1 * np.sqrt(x.cov0[0, 0])))} if p["v"] else None
    return dict(R=x.df if x.cfg["lab"] else x.fmt(x.R0), w=w / w.sum(), re=repricer(x, re, cb), v=v, h=p["h"], n=p["n"], s=seed_arg(p["seed"]))


reg("stress_invariants", "proj rand cb views", g_stinv, a_stinv,
    lambda a: boot.LIB.stress.stress_invariants(a["R"], a["w"], a["re"], stress_views=a["v"], horizon=a["h"], n_simulations=a["n"], seed=a["s"]))


def a_frominv(x, p, cb):
    re = p["re"] if x.cfg["lab"] or p["re"] != "dict" else "cb"
    return dict(R=x.df if x.cfg["lab"] else x.fmt(x.R0), re=repricer(x, re, cb), p=x.p if p["v"] else None, h=p["h"], n=p["n"], s=seed_arg(p["seed"]))


def r_frominv(a):
    w = boot.LIB.PortfolioWrapper.from_invariants(a["R"], horizon=a["h"], n_simulations=a["n"], p=a["p"], reprice=a["re"], seed=a["s"])
    return (w.dist.scenarios, w.min_cvar_at_return(-1e3, 0.1))


reg("from_invariants", "proj rand cb solver", g_stinv, a_frominv, r_frominv)

reg("compose_repricers", "proj cb", lambda r, c: {"n": r.choice([5, 9])},
    lambda x, p, cb: dict(d=repricer(x, "dict", cb), cols=list(x.names), dy=x.fmt(x.R0[: p["n"]])),
    lambda a: (lambda f: (f[1], f[0](a["dy"])))(boot.LIB.utils.projection.compose_repricers(a["d"], a["cols"])))
reg("make_repricing_fn", "proj cb", none,
    lambda x, p, cb: dict(f=cb.fn("pricing_fn", lambda y: np.exp(y) * 3.0, keep=True), y0=x.fmt(np.full(x.cfg["N"], 0.2)), dy=x.fmt(x.R0[:6]), dy2=x.fmt(x.R0[6:9])),
    lambda a: (lambda g: (g(a["dy"]), g(a["dy2"])))(boot.LIB.make_repricing_fn(a["f"], a["y0"])))
reg("repricer_read", "proj read", lambda r, c: {"k": r.randrange(3)},
    lambda x, p, cb: dict(f=x.repricer, dy=x.fmt(x.R0[p["k"] * 3: p["k"] * 3 + 5])), lambda a: a["f"](a["dy"]))
reg("convert", "proj", lambda r, c: {"k": r.choice(["l2s", "s2l", "c2s", "s2c", "pmc"])},
    lambda x, p, cb: dict(k=p["k"], mu=x.mu, S=x.spd, R=x.fmt(x.R0)),
    lambda a: {"l2s": lambda: boot.LIB.utils.projection.log2simple(a["mu"], a["S"]),
               "s2l": lambda: boot.LIB.utils.projection.simple2log(a["mu"], a["S"]),
               "c2s": lambda: boot.LIB.utils.projection.convert_scenarios_compound_to_simple(a["R"]),
               "s2c": lambda: boot.LIB.utils.projection.convert_scenarios_simple_to_compound(a["R"]),
               "pmc": lambda: boot.LIB.utils.projection.project_mean_covariance(a["mu"], a["S"], 12.0)}[a["k"]]())


# -- performance / stress -------------------------------------------------------
def g_stress(rng, cfg):
    return {"k": rng.choice(["plain", "cb", "linear", "decay", "kernel", "ep"]), "p": rng.random() < 0.5, "c": rng.choice([0.9, 0.95, 0.99]),
            "demean": rng.random() < 0.5, "W": rng.random() < 0.3}


def a_stress(x, p, cb):
    w = x.W if p["W"] else x.w
    a = dict(k=p["k"], w=w, R=x.R, p=x.p if p["p"] else None, kw=dict(confidence=p["c"], demean=p["demean"]))
    if p["k"] == "cb":
        a["t"] = cb.fn("transform", lambda r: r * 1.5 - 0.01, keep=True)
    elif p["k"] == "linear":
        a["t"] = boot.LIB.stress.linear_map(mean_shift=x.fmt(np.full(x.cfg["N"], -0.01)), scale=1.3)
    elif p["k"] == "kernel":
        a["f"] = x.focus()
    elif p["k"] == "ep":
        q = x.rng("q").uniform(0.5, 1.5, x.cfg["T"])
        a["q"] = x.fmt(q / q.sum())
    return a


def r_stress(a):
    s = boot.LIB.stress
    k = a["k"]
    if k in ("plain", "cb", "linear"):
        return s.stress_test(a["w"], a["R"], probabilities=a["p"], transform=a.get("t"), **a["kw"])
    if k == "decay":
        return s.exp_decay_stress(a["w"], a["R"], probabilities=a["p"], half_life=11, **a["kw"])
    if k == "kernel":
        return s.kernel_focus_stress(a["w"], a["R"], focus_series=a["f"], probabilities=a["p"], **a["kw"])
    return s.entropy_pooling_stress(a["w"], a["R"], posterior_probabilities=a["q"], probabilities=a["p"], **a["kw"])


reg("stress", "perf cb", g_stress, a_stress, r_stress)
reg("performance", "perf", lambda r, c: {"k": r.choice(["report", "pnl", "var", "cvar", "vol", "variance"]), "p": r.random() < 0.5, "demean": r.random() < 0.5,
                                         "W": r.random() < 0.4, "c": r.choice([0.9, 0.95])},
    lambda x, p, cb: dict(k=p["k"], w=(x.fmt(np.asarray(x.W)) if p["k"] in ("var", "cvar", "vol", "variance") else x.W) if p["W"] and p["k"] != "report" else x.w, R=x.R, S=x.cov, p=x.p if p["p"] else None, c=p["c"], d=p["demean"]),
    lambda a: {"report": lambda: boot.LIB.utils.performance.performance_report(a["w"], a["R"], probabilities=a["p"], confidence=a["c"], demean=a["d"]),
               "pnl": lambda: boot.LIB.utils.performance.scenario_pnl(a["w"], a["R"]),
               "var": lambda: boot.LIB.utils.functions.portfolio_var(a["w"], a["R"], a["p"], a["c"], a["d"]),
               "cvar": lambda: boot.LIB.utils.functions.portfolio_cvar(a["w"], a["R"], a["p"], a["c"], a["d"]),
               "vol": lambda: boot.LIB.utils.functions.portfolio_volatility(a["w"], a["S"]),
               "variance": lambda: boot.LIB.utils.functions.portfolio_variance(a["w"], a["S"])}[a["k"]]())
reg("constraints", "perf", lambda r, c: {"k": r.randint(1, 6)},
    lambda x, p, cb: dict(c=x.constraints(p["k"]), n=x.cfg["N"]),
    lambda a: (boot.LIB.utils.constraints.Constraints.from_dict(a["c"]) if isinstance(a["c"], dict) else a["c"]).to_matrices(a["n"]))
reg("data_helpers", "perf", lambda r, c: {"m": r.choice(["log", "simple"])},
    lambda x, p, cb: dict(df=x.df.abs() + 1.0, m=p["m"]),
    lambda a: boot.LIB.utils.data_helpers.pandas_to_numpy_returns(a["df"], return_calculation_method=a["m"]))
reg("psd", "perf", lambda r, c: {"e": r.choice([0.0, 0.0, 1e-9, 0.3])},
    lambda x, p, cb: dict(m=x.fmt(x.spd0 - p["e"] * np.eye(x.cfg["N"]) * x.spd0[0, 0])),
    lambda a: (boot.LIB.utils.validation.is_psd(a["m"]), boot.LIB.utils.validation.ensure_psd_matrix(a["m"])))
reg("cholesky_pd", "perf", lambda r, c: {"e": r.choice([0.0, 0.0, 1.0])},
    lambda x, p, cb: dict(m=x.fmt(x.spd0 if p["e"] == 0 else np.outer(x.w0, x.w0))),
    lambda a: boot.LIB.bayesian._cholesky_pd(a["m"]))

# -- portfolios -----------------------------------------------------------------
WRAPS = ["m", "s", "b", "k", "l"]


def g_fr(rng, cfg):
    return {"w": rng.choice(["m", "b", "k", "l", "h"]), "n": rng.choice([2, 3, 4]), "c": rng.choice([0, 0, 1, 2, 3, 4, 5, 6]), "costs": rng.random() < 0.3}


def a_wrap(x, p):
    return dict(w=getattr(x, "wrap_" + p["w"]), kw=dict(constraints=x.constraints(p.get("c", 0)), costs=x.costs if p.get("costs") else None))


reg("variance_frontier", "solver frontier", g_fr, lambda x, p, cb: dict(a_wrap(x, p), n=p["n"]),
    lambda a: a["w"].variance_frontier(a["n"], **a["kw"]))
reg("min_variance", "solver single", lambda r, c: dict(g_fr(r, c), q=r.choice([-1.0, 0.2, 0.6, 0.95, 1.5])),
    lambda x, p, cb: dict(a_wrap(x, p), t=ret_level(x, p["q"])), lambda a: a["w"].min_variance_at_return(a["t"], **a["kw"]))


def ret_level(x, q):
    """A target between the smallest and largest asset mean (q > 1: out of reach)."""
    m = x.mu0
    return float(m.min() + q * (m.max() - m.min()))


def g_cv(rng, cfg):
    return {"w": rng.choice(["s", "b", "b", "k", "h"]), "n": rng.choice([2, 3, 4]), "c": rng.choice([0, 0, 1, 2, 3, 4, 6]), "costs": rng.random() < 0.3,
            "a": rng.choice([0.05, 0.1, 0.25]), "cx": rng.random() < 0.8}


reg("cvar_frontier", "solver frontier", g_cv, lambda x, p, cb: dict(a_wrap(x, p), n=p["n"], al=p["a"], cx=p["cx"]),
    lambda a: a["w"].cvar_frontier(a["n"], a["al"], enforce_convexity=a["cx"], **a["kw"]))
reg("min_cvar", "solver single", lambda r, c: dict(g_cv(r, c), q=r.choice([-1.0, 0.2, 0.6, 0.95, 1.5])),
    lambda x, p, cb: dict(a_wrap(x, p), t=ret_level(x, p["q"]), al=p["a"]), lambda a: a["w"].min_cvar_at_return(a["t"], a["al"], **a["kw"]))
reg("cvar_sampled", "solver single rand slow", lambda r, c: {"w": r.choice(["m", "l"]), "seed": _seed(r)},
    lambda x, p, cb: dict(a_wrap(x, p), s=seed_arg(p["seed"])), lambda a: a["w"].min_cvar_at_return(-1e3, 0.1, a["s"]))


def g_rob(rng, cfg):
    return {"w": rng.choice(["m", "b", "k", "l", "r", "h"]), "n": rng.choice([2, 3, 4]), "c": rng.choice([0, 0, 1, 2, 3, 4, 6]), "costs": rng.random() < 0.3,
            "ml": rng.choice([0.5, 2.0]), "ls": rng.choice([None, None, [0.7, 0.0, 1.5], [0.3]]), "rc": rng.random() < 0.3}


reg("robust_frontier", "solver frontier", g_rob,
    lambda x, p, cb: dict(a_wrap(x, p), n=p["n"], k=dict(max_lambda=p["ml"], lambdas=p["ls"], return_cov=x.spd if p["rc"] else None)),
    lambda a: a["w"].robust_lambda_frontier(a["n"], **a["k"], **a["kw"]))
reg("robust_gamma", "solver single", lambda r, c: dict(g_rob(r, c), gm=r.choice([0.2, 1.0]), gs=r.choice([0.02, 0.2, 5.0])),
    lambda x, p, cb: dict(a_wrap(x, p), gm=p["gm"], gs=p["gs"] * float(np.mean(np.diag(x.cov0))) * 4),
    lambda a: a["w"].solve_robust_gamma_portfolio(a["gm"], a["gs"], **a["kw"]))


def g_rrp(rng, cfg):
    mode = rng.choice(["mult", "mult", "ret", "none", "rp"])
    return {"w": rng.choice(["m", "b", "l"]), "c": rng.choice([0, 0, 0, 1, 2, 4]), "lam": rng.choice([0.0, 0.05, 0.2, 1.0]),
            "mode": mode, "mult": rng.choice([0.8, 1.2, 2.0, 8.0]), "q": rng.choice([0.3, 0.7, 0.99, 1.4]), "bud": rng.random() < 0.3,
            "n": rng.choice([2, 3]), "rp": rng.random() < 0.7}


def a_rrp(x, p, cb):
    k = dict(lambda_reg=p["lam"])
    if p["mode"] == "ret":
        k["return_target"] = ret_level(x, p["q"])
        k["target_multiplier"] = None
    elif p["mode"] == "mult":
        k["target_multiplier"] = p["mult"]
    else:
        k["target_multiplier"] = None
        if p["mode"] == "rp":
            k["lambda_reg"] = 0.0
    if p["bud"]:
        b = np.arange(1, x.cfg["N"] + 1, dtype=float)
        k["risk_budgets"] = x.fmt(b / b.sum())
    return dict(w=getattr(x, "wrap_" + p["w"]), k=k, kw=dict(constraints=x.constraints(p["c"])), n=p["n"], m=p["mult"], rp=p["rp"])


reg("rrp", "solver single rrp", g_rrp, a_rrp, lambda a: a["w"].relaxed_risk_parity_portfolio(**a["k"], **a["kw"]))
reg("rrp_diag", "solver single rrp", g_rrp, a_rrp, lambda a: a["w"].relaxed_risk_parity_portfolio_with_diagnostics(**a["k"], **a["kw"]))
reg("rrp_frontier", "solver frontier rrp", g_rrp, a_rrp,
    lambda a: a["w"].relaxed_risk_parity_frontier(a["n"], max(1.01, a["m"] if a["m"] < 3 else 1.6), lambda_reg=a["k"]["lambda_reg"], include_risk_parity=a["rp"],
                                                  risk_budgets=a["k"].get("risk_budgets"), **a["kw"]))
reg("from_prices", "solver single", lambda r, c: {"n": 2}, lambda x, p, cb: dict(P=x.price_path),
    lambda a: (lambda w: (w.dist.scenarios, w.min_cvar_at_return(-1e3, 0.2)))(boot.LIB.PortfolioWrapper.from_prices(a["P"])))


def g_fac(rng, cfg):
    return {"k": rng.choice(["moments", "log", "scen", "post", "dist"]), "c": rng.randint(0, 6), "costs": rng.random() < 0.5}


def a_fac(x, p, cb):
    return dict(k=p["k"], mu=x.mu, S=x.spd, R=x.R, p=x.p, rb=x.rbp, d=x.dist_b, kw=dict(constraints=x.constraints(p["c"]), costs=x.costs if p["costs"] else None))


def r_fac(a):
    W = boot.LIB.PortfolioWrapper
    k = a["k"]
    if k == "moments":
        w = W.from_moments(a["mu"], a["S"], **a["kw"])
    elif k == "log":
        w = W.from_moments(a["mu"], a["S"], return_type="log", **a["kw"])
    elif k == "scen":
        w = W.from_scenarios(a["R"], probabilities=a["p"], **a["kw"])
    elif k == "post":
        w = W.from_robust_posterior(a["rb"], annualization_factor=4.0, **a["kw"])
    else:
        w = W(a["d"], **a["kw"])
    return {q: v for q, v in vars(w).items() if q != "dist"}, vars(w.dist)


reg("factories", "perf", g_fac, a_fac, r_fac)


# class-level optimisers
def g_cls(rng, cfg):
    return {"k": rng.choice(["sharpe", "mv", "cvar", "rob", "gamma"]), "c": rng.choice([0, 1, 3, 6]), "q": rng.choice([None, 0.3, 0.8]), "costs": rng.random() < 0.3,
            "rf": rng.choice([0.0, 0.0, 0.3])}


def a_cls(x, p, cb):
    C = boot.LIB.utils.constraints
    c = x.constraints(p["c"]) or C.Constraints()
    if isinstance(c, dict):
        c = C.Constraints.from_dict(c)
    G, h, A, b = c.to_matrices(x.cfg["N"])
    N, T = x.cfg["N"], x.cfg["T"]
    a = dict(k=p["k"], mu=x.fmt(x.mu0), S=x.fmt(x.spd0), R=x.fmt(x.R0), p=x.fmt(x.p0 if x.p0 is not None else np.full(T, 1.0 / T)),
             con=(G, h, A, b), t=None if p["q"] is None else ret_level(x, p["q"]), rf=p["rf"] * float(np.mean(x.mu0)), kw={})
    if p["costs"] and p["k"] in ("mv", "cvar", "rob"):
        a["kw"]["initial_weights"] = x.fmt(np.full(N, 1.0 / N))
        if p["k"] == "mv":
            a["kw"]["market_impact_costs"] = x.fmt(np.full(N, 0.2) * float(np.mean(np.diag(x.cov0))))
        else:
            a["kw"]["proportional_costs"] = x.fmt(np.full(N, 0.02) * float(np.mean(np.abs(x.mu0))))
    return a


def r_cls(a):
    O = boot.LIB.optimization
    k = a["k"]
    if k == "sharpe":
        return O.MeanVariance(a["mu"], a["S"], *a["con"]).max_sharpe(a["rf"])
    if k == "mv":
        o = O.MeanVariance(a["mu"], a["S"], *a["con"], **a["kw"])
        return (o._solve_target(a["t"]), o.efficient_frontier(3))
    if k == "cvar":
        o = O.MeanCVaR(a["R"], a["p"], 0.1, *a["con"], **a["kw"])
        return (o._solve_target(a["t"]), o.efficient_frontier(3))
    o = O.RobustOptimizer(a["mu"], a["S"] / 10, *a["con"], **a["kw"])
    if k == "rob":
        return (o.solve_lambda_variant(0.7), o.efficient_frontier([0.0, 0.5, 1.0]))
    return o.solve_gamma_variant(1.0, float(np.trace(a["S"])) / 20)


reg("optimisers", "solver", g_cls, a_cls, r_cls)

# -- frontier reads -------------------------------------------------------------
READS = ["min_risk", "max_return", "tangency", "at_risk", "at_return", "closest_risk", "percentiles", "at_percentile",
         "to_frame", "to_samples", "repr", "select"]


def g_read(rng, cfg):
    return {"f": rng.choice(["v", "v", "c", "r", "p"]), "k": rng.choice(READS), "u": rng.choice([0.0, 0.3, 0.5, 0.9, 1.0]), "alt": rng.random() < 0.3}


def r_read(a):
    f, k, u = a["f"], a["k"], a["u"]
    lab = None
    if a["alt"] and f.alternate_risks:
        labs = sorted(f.alternate_risks)
        lab = a["alt"] if a["alt"] in labs else labs[int(u * 7) % len(labs)]
    rk = f._risk_vector(lab) if lab else f.risks
    lv = float(rk.min() + u * (rk.max() - rk.min()))
    rr = float(f.returns.min() + u * (f.returns.max() - f.returns.min()))
    return {"min_risk": lambda: f.min_risk(risk_label=lab), "max_return": lambda: f.max_return(), "tangency": lambda: f.tangency(0.0),
            "at_risk": lambda: f.at_risk(lv, risk_label=lab), "at_return": lambda: f.at_return(rr, risk_label=lab),
            "closest_risk": lambda: f.closest_risk(lv, risk_label=lab), "percentiles": lambda: (f.risk_percentiles(lab), f.index_at_risk_percentile(u, risk_label=lab)),
            "at_percentile": lambda: f.at_percentile(u, risk_label=lab), "to_frame": lambda: f.to_frame(), "to_samples": lambda: f.to_samples(as_frame=bool(u > 0.4)),
            "repr": lambda: (repr(f), f.available_risk_measures() if callable(f.available_risk_measures) else f.available_risk_measures),
            "select": lambda: f.to_frame([0, f.weights.shape[1] - 1])}[k]()


reg("frontier_read", "read", g_read, lambda x, p, cb: dict(f=x.frontier(p["f"]), k=p["k"], u=p["u"], alt=p["alt"]), r_read)


# -- discrete allocation ----------------------------------------------------------
def g_disc(rng, cfg):
    m = rng.choice(["greedy", "greedy", "milp", "milp"])
    kw = {}
    if m == "milp":
        kw = rng.choice([{}, {"cash_penalty": 0.2}, {"max_cash": 60.0}, {"solver_options": {"time_limit": 20.0}}])
    else:
        kw = rng.choice([{}, {}, {"fallback_mode": "milp"}, {"fallback_mode": "none"}, {"max_iterations": 1}, {"max_iterations": 1, "fallback_kwargs": {"cash_penalty": 0.5}}])
    return {"m": m, "kw": kw, "tot": rng.choice([300.0, 1000.0, 5500.5, 20000.0]), "lots": rng.random() < 0.4, "short": rng.random() < 0.12, "obj": rng.choice(["s", "d", "f"])}


def a_disc(x, p, cb):
    w = x.wshort if p["short"] else x.w
    w = pd.Series(np.asarray(w, float), index=x.names)
    pr = x.prices
    if p["obj"] == "d":
        w, pr = w.to_dict(), pr.to_dict()
    lots = None
    if p["lots"]:
        lots = {n: 1 + (i * 2) % 3 for i, n in enumerate(x.names)}
    kw = {k: (dict(v) if isinstance(v, dict) else v) for k, v in p["kw"].items()}
    return dict(w=w, pr=pr, tot=p["tot"], lots=lots, m=p["m"], kw=kw, f=x.fr_v if p["obj"] == "f" and x.cfg["lab"] else None)


def r_disc(a):
    if a["f"] is not None:
        return a["f"].as_discrete_allocation(1 if a["f"].weights.shape[1] > 1 else 0, a["pr"], a["tot"], method=a["m"], lot_sizes=a["lots"], **a["kw"])
    return boot.LIB.discretize_weights(a["w"], a["pr"], a["tot"], method=a["m"], lot_sizes=a["lots"], **a["kw"])


reg("discretize", "milp", g_disc, a_disc, r_disc)

# -- ensembles ----------------------------------------------------------------------
reg("average_exposures", "ens", lambda r, c: {"w": r.random() < 0.5},
    lambda x, p, cb: dict(W=x.W, w=[0.1, 0.3, 0.2, 0.25, 0.15] if p["w"] else None), lambda a: boot.LIB.ensembles.average_exposures(a["W"], a["w"]))
reg("exposure_stacking", "ens solver", lambda r, c: {"L": r.choice([2, 3, 5])}, lambda x, p, cb: dict(W=x.W, L=p["L"]),
    lambda a: boot.LIB.ensembles.exposure_stacking(a["W"], a["L"]))
reg("average_frontiers", "ens", lambda r, c: {"k": r.choice(["vv", "vr", "vcr"]), "sel": r.random() < 0.5},
    lambda x, p, cb: dict(fs=[x.frontier(k) for k in p["k"]], sel=[[0]] * len(p["k"]) if p["sel"] else None),
    lambda a: boot.LIB.average_frontiers(a["fs"], a["sel"]))
reg("stack_frontiers", "ens solver", lambda r, c: {"k": r.choice(["vv", "vr", "vcr"]), "sel": r.random() < 0.7},
    lambda x, p, cb: dict(fs=[x.frontier(k) for k in p["k"]], sel=[[0]] * len(p["k"]) if p["sel"] else None),
    lambda a: boot.LIB.exposure_stack_frontiers(a["fs"], 2, a["sel"]))
reg("stack_portfolios", "ens solver", lambda r, c: {"L": r.choice([2, 3])},
    lambda x, p, cb: dict(ps=[x.fr_v, x.fr_r, x.w], L=p["L"]), lambda a: boot.LIB.stack_portfolios(a["ps"], L=a["L"]))

SPEC_OPT = ["mv", "cvar", "rrp", "robust", "cb"]
SPEC_SEL = ["tangency", "min_risk", "max_return", "risk_target", "risk_match", "risk_percentile", "column", "cb", "cb_arr"]
SPEC_SRC = ["dist", "returns", "returns", "factory", "scen"]


def g_spec(rng, cfg):
    s = {"src": rng.choice(SPEC_SRC), "opt": rng.choice(SPEC_OPT), "sel": rng.choice(SPEC_SEL), "n": rng.choice([2, 3]), "pre": rng.random() < 0.4,
         "proj": rng.choice([None, None, "af", "log", "cb"]), "con": rng.choice([None, None, "dict", "obj"]), "p": rng.random() < 0.4,
         "fs": rng.choice([None, 0, 1]), "me": rng.choice(["sample", "sample", "jorion" if cfg["N"] > 2 else "james_stein", "huber"]), "ce": rng.choice(["sample", "ledoit_wolf", "oas"])}
    if s["opt"] == "cvar" and s["src"] not in ("scen", "dist", "factory"):
        s["src"] = "scen"
    if s["opt"] in ("mv", "rrp", "robust", "cb") and s["src"] == "scen":
        s["src"] = "returns"
    if s["opt"] == "rrp" and s["con"]:
        s["con"] = None
    return s


def build_spec(x, s, cb, name):
    L = boot.LIB
    kw = dict(metadata={"tag": name, "nested": {"a": [1, 2]}})
    if s["src"] == "dist":
        kw["distribution"] = x.dist_b
    elif s["src"] == "factory":
        kw["distribution_factory"] = cb.fn("distribution_factory", lambda: x.dist_b, tag=name)
    else:
        kw["returns"] = x.df
        if s["src"] == "scen":
            kw["use_scenarios"] = True
        if s["p"] and x.p0 is not None:
            kw["probabilities"] = pd.Series(x.p0.copy(), index=x.df.index)
        if s["pre"]:
            kw["preprocess"] = cb.fn("preprocess", lambda d: d * 1.01, tag=name)
        if s["proj"] and s["src"] == "returns":
            kw["projection"] = {"af": {"annualization_factor": 3.0}, "log": {"annualization_factor": 2.0, "log_to_simple": True},
                                "cb": {"transform": cb.fn("projection", lambda m, S: (m * 1.1, S * 1.2), tag=name)}}[s["proj"]]
        kw["mean_estimator"], kw["cov_estimator"] = s["me"], s["ce"]
    ok = {}
    if s["opt"] == "mv":
        kw["optimiser"] = "mean_variance"
        ok = {"num_portfolios": s["n"]}
    elif s["opt"] == "cvar":
        kw["optimiser"] = "cvar"
        ok = {"num_portfolios": s["n"], "alpha": 0.2}
    elif s["opt"] == "rrp":
        kw["optimiser"] = "rrp"
        ok = {"num_portfolios": s["n"], "max_multiplier": 1.2}
    elif s["opt"] == "robust":
        kw["optimiser"] = "robust"
        ok = {"num_portfolios": s["n"], "max_lambda": 1.0}
    else:
        kw["optimiser"] = cb.fn("optimiser", lambda w, **k: w.variance_frontier(**k), tag=name)
        ok = {"num_portfolios": s["n"]}
    if s["con"] == "dict":
        ok["constraints"] = {"long_only": True, "total_weight": 1.0, "bounds": (0.0, 0.85)}
    elif s["con"] == "obj":
        ok["constraints"] = x.constraints(1)
    kw["optimiser_kwargs"] = ok
    sel = s["sel"]
    sk = {}
    if sel == "tangency":
        sk = {"risk_free_rate": 0.0}
    elif sel == "risk_target":
        sk = {"max_risk": 1e3}
    elif sel == "risk_match":
        sk = {"target_risk": float(np.sqrt(np.mean(np.diag(x.cov0))))}
    elif sel == "risk_percentile":
        sk = {"percentile": 0.5}
    elif sel == "column":
        sk = {"index": 0}
    elif sel == "cb":
        sel = cb.fn("selector", lambda f, **k: f.min_risk(), tag=name)
    elif sel == "cb_arr":
        sel = cb.fn("selector", lambda f, **k: np.array(f.weights[:, -1]), tag=name)
    kw["selector"], kw["selector_kwargs"] = sel, sk
    if s["fs"] is not None:
        kw["frontier_selection"] = [s["fs"]]
    return L.make_portfolio_spec(name, **kw)


def g_asm(rng, cfg):
    n = rng.choice([1, 2, 3])
    return {"specs": [g_spec(rng, cfg) for _ in range(n)], "ens": rng.choice(["average", "stack", ["average", "stack"], None] if n > 1 else ["average", None]),
            "comb": rng.choice(["selected", "selected", "frontier"]), "w": rng.random() < 0.3}


def spec_names(n):
    return ["zeta", "alpha", "mid", "beta"][:n]


def a_asm(x, p, cb):
    n = len(p["specs"])
    return dict(specs=[build_spec(x, s, cb, nm) for s, nm in zip(p["specs"], spec_names(n))],
                kw=dict(ensemble=p["ens"], combine=p["comb"], ensemble_weights=[float(i + 1) for i in range(n)] if p["w"] else None))


def _mk_specs(self):
    """Ensemble specifications shared by every assembly that uses this world."""
    import random
    cb = Callbacks()
    r = random.Random(self.cfg["seed"])
    out = []
    for i, nm in enumerate(spec_names(3)):
        s = g_spec(r, self.cfg)
        s["opt"] = ("mv", "robust", "cb")[i]
        if s["src"] == "scen":
            s["src"] = "returns"
        out.append(build_spec(self, s, cb, nm))
    return out


Ctx.mk_specs = _mk_specs


def a_shared(x, p, cb):
    x.dist_b
    return dict(specs=[x.specs[i] for i in p["i"]], kw=dict(ensemble=p["ens"], combine=p["comb"]))


reg("assemble_shared", "ens solver read", lambda r, c: {"i": r.choice([[0], [1], [2], [0, 1], [1, 0], [2, 1, 0], [0, 2]]),
    "ens": r.choice(["average", None]), "comb": r.choice(["selected", "frontier"])}, a_shared,
    lambda a: boot.LIB.assemble_portfolio_ensemble(a["specs"], **a["kw"]))
reg("assemble", "ens solver cb", g_asm, a_asm, lambda a: boot.LIB.assemble_portfolio_ensemble(a["specs"], **a["kw"]))


def a_wspec(x, p, cb):
    return dict(w=x.wrap_b, s=p["sel"], cbk=cb.fn("optimiser", lambda w, **k: w.variance_frontier(**k)) if p["cb"] else "mean_variance", n=p["n"])


def r_wspec(a):
    w = a["w"]
    s1 = w.make_ensemble_spec("first", optimiser=a["cbk"], optimiser_kwargs={"num_portfolios": a["n"]}, selector=a["s"])
    s2 = w.make_ensemble_spec("second", optimiser="robust", optimiser_kwargs={"num_portfolios": 2}, selector="max_return")
    return w.assemble_ensembles([s1, s2], ensemble=["average", "stack"])


reg("wrapper_ensemble", "ens solver cb", lambda r, c: {"sel": r.choice(["tangency", "min_risk", "max_return"]), "cb": r.random() < 0.5, "n": r.choice([2, 3])}, a_wspec, r_wspec)


# -- plotting -------------------------------------------------------------------------
def g_plot(rng, cfg):
    return {"k": rng.choice(["frontiers", "overlay", "grid", "weights", "path", "impact", "surface", "report", "assump", "meta"]), "f": rng.choice(["v", "c", "r", "p"])}


def a_plot(x, p, cb):
    a = dict(k=p["k"], f=x.frontier("r" if p["k"] in ("path", "impact", "surface") else p["f"]))
    if p["k"] == "grid":
        a["fs"] = {"one": x.fr_v, "two": x.fr_r}
        a["by"] = cb.fn("by", lambda lab, f: f.risk_measure)
    if p["k"] == "meta":
        a["f"] = x.fr_r
        a["fmt"] = cb.fn("formatter", lambda k, v: f"{k}:{v}")
    if p["k"] == "weights":
        a["w"] = x.W if x.cfg["lab"] else pd.Series(x.w0, index=x.names)
    if p["k"] == "assump":
        a["mu"], a["S"], a["R"] = x.fmt(x.mu0), x.fmt(x.spd0), x.fmt(x.R0)
    return a


def r_plot(a):
    import matplotlib.pyplot as plt
    P = boot.LIB.plotting
    before = set(plt.get_fignums())
    try:
        k, f = a["k"], a["f"]
        if k == "frontiers":
            return P.plot_frontiers(f, highlight=("min_risk", "max_return", "tangency"), risk_free_rate=0.0, percent_axes=True)
        if k == "overlay":
            return P.plot_frontiers([f, f], labels=["a", "b"], overlay_risk_labels=sorted(f.alternate_risks), show_points=True)
        if k == "grid":
            r = P.plot_frontiers_grid(a["fs"], by=a["by"])
            return [x for x in np.ravel(np.asarray(r[1] if isinstance(r, tuple) else r, dtype=object))]
        if k == "weights":
            return P.plot_weights(a["w"], top_n=2)
        if k == "path":
            return P.plot_robust_path(f)
        if k == "impact":
            P.plot_param_impact(f)
            return None
        if k == "surface":
            P.plot_robust_surface(f)
            return None
        if k == "report":
            P.plot_frontier_report(f)
            return None
        if k == "meta":
            return P.plot_frontiers(f, highlight=("min_risk",), highlight_metadata_keys=["lambda"], metadata_value_formatter=a["fmt"])
        P.plot_assumptions_3d(a["mu"], a["S"], scenarios=a["R"])
        return None
    finally:
        for n in set(plt.get_fignums()) - before:
            plt.close(n)


reg("plot", "plot cb", g_plot, a_plot, r_plot)


def pick_op(rng, cfg, want=None, avoid=(), weights=None):
    """A random operation with parameters.  want: tags any of which must be present."""
    names = [n for n, o in OPS.items() if (want is None or o.tags & set(want)) and not (o.tags & set(avoid)) and n not in avoid]
    n = rng.choice(names)
    return {"op": n, "p": OPS[n].gen(rng, cfg)}


from . import world2, world3  # noqa: E402,F401
