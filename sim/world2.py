"""Less common ways of calling the library: other argument forms, label orders, edge arguments and invalid input."""
import numpy as np
import pandas as pd

from . import boot
from .world import Ctx, OPS, _seed, cb3, none, reg, ret_level, seed_arg  # noqa: F401


def L():
    return boot.LIB


def perm(x):
    return [int(i) for i in x.rng("perm").permutation(x.cfg["N"])]


def shuffled(x, kind):
    """Weights labelled in another asset order than the data."""
    o = perm(x)
    names = [x.names[i] for i in o]
    w = pd.Series(x.w0[o], index=names, name="w")
    return {"series": w, "dict": w.to_dict(), "frame": w.to_frame(), "list": list(map(float, x.w0))}[kind]


# -- estimators ---------------------------------------------------------------------
EST = {
    "poet_auto": lambda x, m, R: m.factor_covariance_poet(R, k="auto", thresh="auto"),
    "poet_full": lambda x, m, R: m.factor_covariance_poet(R, k=99),
    "poet_zero": lambda x, m, R: m.factor_covariance_poet(R, k=1, thresh=0.0, standardize=False),
    "ewma_min": lambda x, m, R: m.covariance_ewma(R, span=5, min_periods=3),
    "glasso_p": lambda x, m, R: m.sparse_precision_glasso(R, alpha=0.25, return_precision=True),
    "huber_it": lambda x, m, R: m.robust_mean_huber(R, max_iter=1),
    "tyler_it": lambda x, m, R: m.robust_covariance_tyler(R, max_iter=2),
    "oas_c": lambda x, m, R: m.shrink_covariance_oas(R, assume_centered=False),
    "mom_gen": lambda x, m, R: m.robust_mean_median_of_means(R, n_blocks=4, random_state=np.random.default_rng(5)),
    "est_t": lambda x, m, R: m.estimate_moments(R, mean_estimator="james_stein", cov_estimator="ledoit_wolf",
                                                mean_kwargs={"target": "grand_mean"}, cov_kwargs={"target": "identity"}),
    "est_m": lambda x, m, R: m.estimate_moments(R, mean_estimator="median_of_means", mean_kwargs={"random_state": 4},
                                                cov_estimator="tyler", cov_kwargs={"shrinkage": 0.3}),
}


def r_estm(a):
    m = boot.LIB.moments
    k = a["k"]
    if k == "js_vec":
        return m.shrink_mean_james_stein(a["mu"], a["S"], 50, target=a["t"])
    if k == "tyler_t":
        return m.robust_covariance_tyler(a["R"], shrinkage=0.2, target=a["S"])
    return EST[k](None, m, a["R"])


reg("est_more", "est", lambda r, c: {"k": r.choice(sorted(EST) + ["js_vec", "tyler_t"])},
    lambda x, p, cb: dict(k=p["k"], R=x.R, mu=x.mu, S=x.spd, t=x.vec(np.full(x.cfg["N"], 0.001))), r_estm)


def g_prob(rng, cfg):
    return {"k": rng.choice(["norm", "resolve", "kernel_v", "silver", "uni", "strict"])}


reg("prob_more", "est", g_prob, lambda x, p, cb: dict(k=p["k"], x=x.focus(), v=x.fmt(x.R0[:, -1]), p=x.fmt(np.linspace(1.0, 2.0, x.cfg["T"]))),
    lambda a: {"norm": lambda: boot.LIB.probabilities.normalize_probability_vector(a["p"]),
               "strict": lambda: boot.LIB.probabilities.normalize_probability_vector(list(a["p"]), strictly_positive=True),
               "resolve": lambda: boot.LIB.probabilities.resolve_probabilities(a["p"] / a["p"].sum(), a["p"].size, strictly_positive=True),
               "kernel_v": lambda: boot.LIB.probabilities.generate_gaussian_kernel_probabilities(a["x"], v=a["v"]),
               "silver": lambda: boot.LIB.probabilities.silverman_bandwidth(a["x"]),
               "uni": lambda: boot.LIB.probabilities.generate_uniform_probabilities(a["x"].size)}[a["k"]]())


# -- Black-Litterman and views ----------------------------------------------------------
def g_blm(rng, cfg):
    return {"pi": rng.random() < 0.4, "v": rng.choice(["vec", "int", "digit", "pairs", "none", "list"]), "om": rng.choice(["idzorek", "sigma", None, "mat", "vec"]),
            "cf": rng.choice(["dict", "num", "arr", "part", None]), "verb": rng.random() < 0.3, "tau": rng.choice([0.02, 0.3]), "ra": rng.choice([0.5, 2.5]),
            "cls": rng.random() < 0.5}


def a_blm(x, p, cb):
    N = x.cfg["N"]
    mu = x.mu0
    v = {"vec": lambda: x.fmt(mu * 1.2), "int": lambda: {0: float(mu[0] * 0.8), N - 1: float(mu[-1] * 1.1)},
         "digit": lambda: {"0": float(mu[0] * 1.4)}, "pairs": lambda: {(x.asset(0), x.asset(1)): float(0.1 * np.sqrt(x.spd0[0, 0])), x.asset(N - 1): float(mu[-1])},
         "none": lambda: None, "list": lambda: {x.asset(0): [float(mu[0] * 1.2)]}}[p["v"]]()
    K = N if p["v"] == "vec" else len(v or ())
    kw = dict(prior_cov=x.spd, tau=p["tau"], risk_aversion=p["ra"], mean_views=v)
    if p["pi"]:
        kw["pi"] = x.mu
    elif p["ra"] > 1:
        kw["market_weights"] = x.w
    else:
        kw["prior_mean"] = x.mu
    om = {"idzorek": "idzorek", "sigma": "idzorek", None: None, "mat": x.fmt(np.eye(K) * 0.02 * x.spd0[0, 0]), "vec": x.fmt(np.full(K, 0.01) * x.spd0[0, 0])}[p["om"]]
    kw["omega"] = om
    if p["om"] == "sigma":
        kw["idzorek_use_tau"] = False
    if p["cf"] == "dict" and isinstance(v, dict):
        kw["view_confidences"] = {k: 0.3 + 0.1 * i for i, k in enumerate(v)}
    elif p["cf"] == "part" and isinstance(v, dict):
        kw["view_confidences"] = {next(iter(v)): 0.4}
    elif p["cf"] == "num":
        kw["view_confidences"] = 0.7
    elif p["cf"] == "arr":
        kw["view_confidences"] = x.fmt(np.linspace(0.2, 0.9, K))
    return dict(kw=kw, cls=p["cls"] or p["pi"] or p["om"] == "sigma", verb=p["verb"])


def r_blm(a):
    if a["cls"]:
        b = boot.LIB.views.BlackLittermanProcessor(verbose=a["verb"], **a["kw"])
        return (b.get_posterior(), b.get_posterior())
    return boot.LIB.moments.posterior_moments_black_litterman(**a["kw"])


reg("bl_more", "bayes", g_blm, a_blm, r_blm)


def g_vm(rng, cfg):
    return {"k": rng.choice(["vec", "digit", "int", "q_le", "q_ge", "q_and", "cvar1", "rank_and", "helpers", "synth", "seqall"]), "p": rng.random() < 0.5,
            "seq": rng.random() < 0.4}


def a_vm(x, p, cb):
    V = boot.LIB.views
    N = x.cfg["N"]
    mu, sd = x.mu0, np.sqrt(np.diag(x.cov0))
    a0, a1 = x.asset(0), x.asset(1)
    lv = float(np.sort(x.R0[:, 0])[x.cfg["T"] // 5])
    pr = x.p0 if x.p0 is not None else np.full(x.cfg["T"], 1.0 / x.cfg["T"])
    q = float(pr @ (x.R0[:, 0] <= lv))
    kw = {"vec": lambda: dict(mean_views=x.fmt(mu + 0.05 * sd)), "digit": lambda: dict(mean_views={"0": float(mu[0] + 0.1 * sd[0])}),
          "int": lambda: dict(vol_views={0: float(0.95 * sd[0])} if not x.cfg["lab"] else {a0: float(0.95 * sd[0])}),
          "q_le": lambda: dict(quantile_views={a0: ("<=", lv, 0.8 * q)} if False else {a0: (lv, 0.8 * q)}, mean_views={a1: (">=", float(mu[1]))}),
          "q_ge": lambda: dict(quantile_views={a0: (lv, min(0.9, 1.3 * q)), a1: (float(np.median(x.R0[:, 1])), 0.45)}),
          "q_and": lambda: dict(quantile_views={a0: (lv, 1.1 * q)}, vol_views={a1: ("<=", float(sd[1]))}),
          "cvar1": lambda: dict(cvar_views={a0: (float(np.sort(x.R0[:, 0])[:4].mean() * 1.01), 0.2)}, mean_views={a1: ("<=", float(mu[1]))}),
          "rank_and": lambda: dict(rank_mean=[x.asset(int(i)) for i in np.argsort(-mu)[:2]], mean_views={a0: (">=", float(mu[0] - 0.1 * sd[0]))}),
          "helpers": lambda: dict(mean_views={a0: V.at_least(float(mu[0])), a1: V.between(float(mu[1] - sd[1] * 0.2), float(mu[1] + sd[1] * 0.2))},
                                  vol_views={a0: V.at_most(float(sd[0])), a1: V.above(float(0.8 * sd[1]))}, skew_views={a1: V.below(3.0)}),
          "synth": lambda: dict(mean_views={a0: (">=", float(mu[0]))}),
          "seqall": lambda: dict(mean_views={a0: float(mu[0] + 0.05 * sd[0])}, vol_views={a1: float(0.95 * sd[1])}, corr_views={(a0, a1): ("<=", 0.9)},
                                 skew_views={a0: (">=", -2.0)})}[p["k"]]()
    kw["sequential"] = p["seq"] or p["k"] == "seqall"
    a = dict(R=x.views_prior, p=x.vec_p() if p["p"] else None, kw=kw, synth=None)
    if p["k"] == "synth":
        a["synth"] = dict(prior_mean=x.mu, prior_cov=x.spd, num_scenarios=60, random_state=seed_arg(7))
    return a


def r_vm(a):
    V = boot.LIB.views.FlexibleViewsProcessor
    v = V(**a["synth"], **a["kw"]) if a["synth"] else V(a["R"], a["p"], **a["kw"])
    return (v.get_posterior_probabilities(), v.get_posterior(), v.get_scenarios())


reg("views_more", "views", g_vm, a_vm, r_vm)


# -- projection, performance, stress ------------------------------------------------------
def g_pm(rng, cfg):
    return {"k": rng.choice(["series", "frame_re", "taylor", "taylor0", "paths1", "alias", "floath"]), "seed": _seed(rng), "p": rng.random() < 0.4}


def a_pm(x, p, cb):
    a = dict(k=p["k"], R=x.R, p=x.p if p["p"] else None, s=seed_arg(p["seed"]), one=x.df.iloc[:, 0].copy() if x.cfg["lab"] else x.focus(), g=x.fmt(np.linspace(-1, 1, x.cfg["N"])))
    if p["k"] == "frame_re":
        a["R"] = x.df
        names = [x.names[i] for i in perm(x)]
        own = list(x.names)
        a["re"] = cb.fn("reprice", lambda d: pd.DataFrame(np.expm1(np.asarray(d, float)), columns=own)[names])
    return a


def r_pm(a):
    J = boot.LIB.utils.projection
    k = a["k"]
    if k == "series":
        return J.project_scenarios(a["one"], 2, p=a["p"], n_simulations=30, seed=a["s"])
    if k == "paths1":
        return J.simulate_paths(a["one"], 3, 10, p=a["p"], seed=a["s"])
    if k == "frame_re":
        return J.project_scenarios(a["R"], 2, n_simulations=25, reprice=a["re"], seed=a["s"])
    if k == "taylor":
        return J.project_scenarios(a["R"], 2, n_simulations=25, seed=a["s"], reprice=lambda d: J.reprice_taylor(d, theta=0.01, delta=a["g"], gamma=0.5, tau=2.0))
    if k == "taylor0":
        return (J.reprice_taylor(np.asarray(a["R"], float)), J.reprice_taylor(np.asarray(a["R"], float), gamma=a["g"]))
    if k == "alias":
        return J.project_risk_drivers(a["R"], 2, p=a["p"], n_simulations=20, seed=a["s"]) if hasattr(J, "project_risk_drivers") else None
    return J.project_scenarios(a["R"], 2.0, p=a["p"], n_simulations=20, seed=a["s"])


reg("proj_more", "proj rand cb", g_pm, a_pm, r_pm)


def g_pfm(rng, cfg):
    return {"k": rng.choice(["report", "pnl", "stress", "horizon", "ddq", "cvar", "vol", "inv", "map"]), "w": rng.choice(["series", "dict", "frame", "list"]), "p": rng.random() < 0.4}


def a_pfm(x, p, cb):
    w = shuffled(x, p["w"])
    if p["k"] in ("cvar", "vol"):
        w = x.w if x.cfg["lab"] else x.fmt(x.w0)
    a = dict(k=p["k"], w=w, df=x.df, S=x.mat(x.spd0), p=pd.Series(x.p0.copy(), index=x.df.index) if p["p"] and x.p0 is not None else None, M=x.fmt(np.eye(x.cfg["N"]) * 0.9))
    if p["k"] == "inv":
        a["re"] = cb.fn("reprice", np.expm1)
    return a


def r_pfm(a):
    P, F, S = boot.LIB.utils.performance, boot.LIB.utils.functions, boot.LIB.stress
    k, w, df, p = a["k"], a["w"], a["df"], a["p"]
    if k == "report":
        return P.performance_report(w, df, probabilities=p)
    if k == "pnl":
        return P.scenario_pnl(w, df)
    if k == "stress":
        return S.stress_test(w, df, probabilities=p, transform=S.linear_map(mean_shift=-0.01))
    if k == "map":
        return S.stress_test(w, df, transform=S.linear_map(matrix=a["M"], scale=1.1))
    if k == "horizon":
        return P.horizon_report(w, df, horizons=[2], n_simulations=20, p=p, seed=3)
    if k == "ddq":
        return P.drawdown_quantile(w, df, 3, n_paths=15, p=p, seed=3)
    if k == "cvar":
        return (F.portfolio_cvar(w, df, p, 0.9, True), F.portfolio_var(w, df, p), F.portfolio_cvar(w, df.iloc[:, 0] if False else df))
    if k == "vol":
        return (F.portfolio_volatility(w, a["S"]), F.portfolio_variance(w, a["S"]))
    return S.stress_invariants(df, w, a["re"], horizon=2, n_simulations=20, seed=4)


reg("perf_more", "perf rand cb", g_pfm, a_pfm, r_pfm)


def g_dm(rng, cfg):
    return {"k": rng.choice(["date", "dateidx", "cols", "multi", "zero", "bfill", "drop", "wser", "nodate", "badcol", "badm", "badf"])}


def a_dm(x, p, cb):
    df = x.df.abs() + 1.0
    df.iloc[3, 0] = np.nan
    k = p["k"]
    kw = {}
    if k == "date":
        df = df.reset_index().rename(columns={"index": "when"})
        df["when"] = df["when"].astype(str)
        kw = dict(date_column="when", price_columns=list(x.names))
    elif k == "dateidx":
        df.index.name = "when"
        kw = dict(date_column="when")
    elif k == "multi":
        df.index = pd.MultiIndex.from_arrays([df.index, np.arange(len(df))], names=["when", "n"])
        kw = dict(date_column="when")
    elif k == "cols":
        kw = dict(price_columns=list(x.names)[:1], return_calculation_method="simple")
    elif k == "nodate":
        kw = dict(date_column="nope")
    elif k == "badcol":
        kw = dict(price_columns=["nope"])
    elif k == "badm":
        kw = dict(return_calculation_method="nope")
    elif k == "badf":
        kw = dict(fill_na_method="nope")
    elif k in ("zero", "bfill", "drop"):
        kw = dict(fill_na_method=k)
    return dict(df=df, kw=kw, k=k, w=x.fmt(x.w0), n=[str(v) for v in x.names])


reg("data_more", "perf", g_dm, a_dm,
    lambda a: boot.LIB.utils.data_helpers.numpy_weights_to_pandas_series(a["w"], a["n"]) if a["k"] == "wser" else
    boot.LIB.utils.data_helpers.pandas_to_numpy_returns(a["df"], **a["kw"]))


# -- constraints -----------------------------------------------------------------------------
CON = ["empty", "free", "zero", "tup", "inv", "dict", "dictinv", "dictidx", "dictlen", "list", "listlen", "listinv", "rel", "relidx", "relsame", "rellen", "grp", "grpidx", "grpinv",
       "G", "Glen", "A", "Alen", "text", "nan", "nolimits", "total"]


def con_spec(x, k):
    N = x.cfg["N"]
    row = [0.0] * N
    row[0] = 1.0
    nan = float("nan")
    return {"empty": {}, "free": dict(long_only=False, total_weight=None), "zero": dict(total_weight=0.0), "tup": dict(bounds=(0.0, 0.9)), "inv": dict(bounds=(0.5, 0.1)),
            "dict": dict(bounds={0: (0.0, 0.9), N - 1: (0.01, 0.8)}), "dictinv": dict(bounds={0: (0.9, 0.1)}), "dictidx": dict(bounds={N: (0.0, 1.0)}), "dictlen": dict(bounds={0: (0.1,)}),
            "list": dict(bounds=[(0.0, 0.95)] * N), "listlen": dict(bounds=[(0.0, 1.0)] * (N - 1)), "listinv": dict(bounds=[(0.5, 0.1)] * N), "rel": dict(relative_bounds=[(0, 1, 0.5), (1, 0, 2.0)]),
            "relidx": dict(relative_bounds=[(0, N, 0.5)]), "relsame": dict(relative_bounds=[(0, 0, 0.5)]), "rellen": dict(relative_bounds=[(0, 1)]), "grp": dict(group_constraints={"a": ([0, 1], 0.1, 0.95)}),
            "grpidx": dict(group_constraints={"a": ([0, N], 0.1, 0.9)}), "grpinv": dict(group_constraints={"a": ([0], 0.9, 0.1)}), "G": dict(additional_G_h=[(row, 0.9)]), "Glen": dict(additional_G_h=[(row[:-1], 0.9)]),
            "A": dict(additional_A_b=[(row, 0.3)]), "Alen": dict(additional_A_b=[(row + [0.0], 0.3)]), "text": dict(total_weight="one"), "nan": dict(bounds=(0.0, nan)), "nolimits": dict(long_only=False),
            "total": dict(total_weight=0.8, bounds=(0.0, 0.8))}[k]


reg("con_more", "perf solver", lambda r, c: {"k": r.choice(CON), "u": r.choice(["mat", "wrap", "front", "fac", "solve"])},
    lambda x, p, cb: dict(u=p["u"], d=con_spec(x, p["k"]), n=x.cfg["N"], w=x.wrap_b, mu=x.mu, S=x.spd),
    lambda a: r_con(a))


def r_con(a):
    C = boot.LIB.utils.constraints.Constraints
    if a["u"] == "mat":
        return C.from_dict(a["d"]).to_matrices(a["n"])
    if a["u"] == "fac":
        d = a["d"]
        return boot.LIB.PortfolioWrapper.from_moments(a["mu"], a["S"], **{k: d[k] for k in ("long_only", "total_weight", "bounds") if k in d}).min_variance_at_return(-1e3)
    if a["u"] == "solve":
        return a["w"].min_variance_at_return(-1e3, constraints=a["d"])
    if a["u"] == "front":
        return a["w"].variance_frontier(2, constraints=C.from_dict(a["d"]))
    return a["w"].relaxed_risk_parity_portfolio(constraints=a["d"])


# -- wrappers, allocation, ensembles, plots --------------------------------------------------
def g_wm(rng, cfg):
    return {"k": rng.choice(["slog", "mult", "multbad", "lam1", "costs", "repr", "one", "post", "dist_names"]), "seed": _seed(rng)}


def a_wm(x, p, cb):
    return dict(k=p["k"], R=x.R, p=x.p, w=x.wrap_b, m=x.wrap_m, mu=x.mu, S=x.spd, s=seed_arg(p["seed"]), costs=x.costs, rb=x.rbp, names=list(x.names))


def r_wm(a):
    W = boot.LIB.PortfolioWrapper
    k, w = a["k"], a["w"]
    if k == "slog":
        q = W.from_scenarios(a["R"], probabilities=a["p"], return_type="log")
        return (q.dist.scenarios, q.min_cvar_at_return(-1e3, 0.1))
    if k == "mult":
        return w.relaxed_risk_parity_frontier(2, target_multipliers=[1.3, 0.9, 1.1], lambda_reg=0.1)
    if k == "multbad":
        return w.relaxed_risk_parity_frontier(2, target_multipliers=[-1.0])
    if k == "lam1":
        return (w.robust_lambda_frontier(1, 0.7), w.robust_lambda_frontier(2, lambdas=[0.9]))
    if k == "costs":
        q = W.from_moments(a["mu"], a["S"], costs=a["costs"])
        return (q.min_variance_at_return(-1e3), q.robust_lambda_frontier(2))
    if k == "repr":
        return (repr(w), repr(a["m"]))
    if k == "one":
        return (w.variance_frontier(1), w.cvar_frontier(1))
    if k == "post":
        return W.from_robust_posterior(a["rb"], annualization_factor=12.0, bounds=(0.0, 0.9)).robust_lambda_frontier(2)
    d = boot.LIB.portfolioapi.AssetsDistribution(mu=np.asarray(a["mu"], float), cov=np.asarray(a["S"], float), asset_names=a["names"])
    return W(d).variance_frontier(2)


reg("wrap_more", "solver frontier", g_wm, a_wm, r_wm)


def g_am(rng, cfg):
    return {"k": rng.choice(["lots", "props", "tiny", "mode", "dup", "zero", "price", "missing", "method", "direct", "extra"]), "tot": rng.choice([40.0, 900.0])}


def a_am(x, p, cb):
    w = pd.Series(x.w0.copy(), index=x.names)
    pr = x.prices.copy()
    if p["k"] == "zero":
        w[:] = 0.0
    if p["k"] == "price":
        pr.iloc[0] = -1.0
    if p["k"] == "missing":
        pr = pr.iloc[:-1]
    if p["k"] == "dup":
        w = pd.concat([w, w.iloc[:1]])
    if p["k"] == "extra":
        pr = pd.concat([pr, pd.Series({"other": 5.0})]).iloc[::-1]
    lots = pd.Series(np.arange(1, x.cfg["N"] + 1), index=x.names)[::-1] if p["k"] == "lots" else None
    return dict(k=p["k"], w=w, pr=pr, tot=p["tot"], lots=lots)


def r_am(a):
    D = boot.LIB.discrete_allocation
    k = a["k"]
    kw = {"mode": dict(fallback_mode="nope"), "method": dict(method="nope")}.get(k, {})
    if k in ("direct", "props"):
        i = D.DiscreteAllocationInput(a["w"], a["pr"], a["tot"], a["lots"])
        r = D.allocate_greedy(i)
        m = D.allocate_mip(i, cash_penalty=0.1)
        return (i.asset_names, r, r.as_series(), m)
    return D.discretize_weights(a["w"], a["pr"], a["tot"], lot_sizes=a["lots"], **kw)


reg("alloc_more", "milp", g_am, a_am, r_am)


def g_em(rng, cfg):
    return {"k": rng.choice(["pct", "opts", "wser", "wdict", "acc", "badcomb", "badens", "empty", "L1", "Lbig", "opt", "sel", "selkw", "mixed", "folds", "dup"])}


def a_em(x, p, cb):
    return dict(k=p["k"], fs=[x.fr_v, x.fr_r], W=x.W, w=pd.Series([0.1, 0.3, 0.2, 0.25, 0.15], index=[f"s{i}" for i in range(5)])[::-1], d=x.dist_b, opts={"maxiters": 30},
                one=x.w, cb=cb.fn("selector", lambda f, **k: f.min_risk()))


def r_em(a):
    E = boot.LIB.ensembles
    k = a["k"]
    if k == "pct":
        s = E.risk_percentile_selections(a["fs"], 0.4)
        return (s, E.average_frontiers(a["fs"], s), E.exposure_stack_frontiers(a["fs"], 2, s))
    if k == "opts":
        return E.exposure_stacking(a["W"], 2, solver_options=a["opts"])
    if k == "wser":
        return E.average_exposures(a["W"], a["w"])
    if k == "L1":
        return E.exposure_stacking(a["W"], 1)
    if k == "Lbig":
        return E.exposure_stacking(a["W"], 9)
    if k == "empty":
        return E.assemble_portfolio_ensemble([])
    if k == "mixed":
        return E.stack_portfolios([a["fs"][0], a["one"], a["fs"][1]], selections=[[0], None, [1]], L=2)
    mk = E.make_portfolio_spec
    if k == "opt":
        return mk("x", distribution=a["d"], optimiser="nope")
    if k == "sel":
        return E.assemble_portfolio_ensemble([mk("x", distribution=a["d"], selector="nope")])
    if k == "selkw":
        return E.assemble_portfolio_ensemble([mk("x", distribution=a["d"], selector="risk_target")])
    s = [mk("b", distribution=a["d"], optimiser_kwargs={"num_portfolios": 2}, selector="min_risk"),
         mk("b" if k == "dup" else "a", distribution=a["d"], optimiser="robust", optimiser_kwargs={"num_portfolios": 2}, selector=a["cb"])]
    if k == "badcomb":
        return E.assemble_portfolio_ensemble(s, combine="nope")
    if k == "badens":
        return E.assemble_portfolio_ensemble(s, ensemble="nope")
    if k == "wdict":
        return E.assemble_portfolio_ensemble(s, ensemble="average", ensemble_weights=[0.0, 0.0])
    r = E.assemble_portfolio_ensemble(s, ensemble=("average", "stack"), stack_folds=2 if k == "folds" else None, stack_kwargs={"solver_options": a["opts"]} if k == "folds" else None)
    return (r, r.get("average"), r.get("none", 3), r.average, r.stacked)


reg("ens_more", "ens solver cb", g_em, a_em, r_em)


def g_plm(rng, cfg):
    return {"k": rng.choice(["policy", "cols", "own", "barh", "stacked", "series", "risk", "overlay", "surf", "unc", "report", "badmark", "badpol", "notfr", "path"]), "f": rng.choice(["v", "c", "r"])}


def a_plm(x, p, cb):
    return dict(k=p["k"], f=x.frontier("r" if p["k"] in ("surf", "path") else p["f"]), fs=[x.fr_v, x.fr_c], W=x.W, w=pd.Series(x.w0, index=x.names), mu=x.fmt(x.mu0), S=x.fmt(x.spd0), R=x.fmt(x.R0),
                kw=dict(line_kwargs={"lw": 2.0}, marker_kwargs={"min_risk": {"s": 30}}, scatter_kwargs={"s": 4}))


def r_plm(a):
    import matplotlib.pyplot as plt
    P = boot.LIB.plotting
    before = set(plt.get_fignums())
    k, f = a["k"], a["f"]
    try:
        if k == "policy":
            P.plot_frontiers_grid(a["fs"], labels=["x", "y"], legend_policy="each", cols=1, risk_free_rate=0.0, highlight=("tangency",))
        elif k == "cols":
            P.plot_frontiers_grid(a["fs"], cols=3, legend_policy="none")
        elif k == "own":
            P.plot_frontiers(f, ax=plt.subplots()[1], show_points=True, legend=False, return_label="r", **a["kw"])
        elif k == "barh":
            P.plot_weights(a["w"], kind="bar", title="t", percent_axes=False, legend=False)
        elif k == "stacked":
            P.plot_weights(a["W"], stacked=True, top_n=1, kind="bar")
        elif k == "series":
            P.plot_weights(a["w"], top_n=99, ax=plt.subplots()[1])
        elif k == "risk":
            for lab in sorted(f.alternate_risks):
                P.plot_frontiers([f], risk_label=lab, highlight=("min_risk", "max_return"))
        elif k == "overlay":
            P.plot_frontiers({"one": f}, overlay_risk_labels=["nope"] + sorted(f.alternate_risks), percent_axes=True)
        elif k == "surf":
            P.plot_robust_surface(f, ax=plt.figure().add_subplot(111, projection="3d"))
        elif k == "path":
            P.plot_robust_path(f, overlay_risk_label=(sorted(f.alternate_risks) or [None])[0], percent_axes=True)
        elif k == "unc":
            P.plot_assumptions_3d(a["mu"], a["S"], scenarios=a["R"], uncertainty_cov=a["S"], max_points=10, titles=("a", "b"))
        elif k == "report":
            P.plot_frontier_report(f, selection="max_return", weights=a["w"], percent_axes=False)
        elif k == "badmark":
            P.plot_frontiers(f, highlight=("nope",))
        elif k == "badpol":
            P.plot_frontiers_grid(a["fs"], legend_policy="nope")
        else:
            P.plot_frontiers([3])
        return None
    finally:
        for n in set(plt.get_fignums()) - before:
            plt.close(n)


reg("plot_more", "plot", g_plm, a_plm, r_plm)


# -- invalid input ------------------------------------------------------------------------------
def short(m):
    return m.iloc[:-1] if hasattr(m, "iloc") else m[:-1]


def poisoned(x, m, v=float("nan")):
    m = np.array(m, float)
    m.flat[m.size // 2] = v
    return x.mat(m) if m.ndim == 2 and m.shape[0] == m.shape[1] == x.cfg["N"] else (x.tab(m) if m.ndim == 2 else x.vec(m))


REJ = {
    "est_p": lambda x: (dict(R=x.R, p=x.fmt(np.full(x.cfg["T"], 2.0 / x.cfg["T"]))), lambda a: L().estimate_sample_moments(a["R"], a["p"])),
    "est_len": lambda x: (dict(R=x.R, p=x.fmt(np.full(3, 1 / 3))), lambda a: L().estimate_sample_moments(a["R"], a["p"])),
    "est_name": lambda x: (dict(R=x.R), lambda a: L().estimate_moments(a["R"], mean_estimator="nope")),
    "est_cov": lambda x: (dict(R=x.R), lambda a: L().estimate_moments(a["R"], cov_estimator="nope")),
    "jorion": lambda x: (dict(mu=x.mu, S=x.spd), lambda a: L().moments.shrink_mean_jorion(a["mu"], a["S"], 1)),
    "jorion_s": lambda x: (dict(mu=x.mu, S=x.fmt(np.zeros((x.cfg["N"],) * 2))), lambda a: L().moments.shrink_mean_jorion(a["mu"], a["S"], 90)),
    "js_t": lambda x: (dict(mu=x.mu, S=x.spd), lambda a: L().moments.shrink_mean_james_stein(a["mu"], a["S"], 0)),
    "lw_t": lambda x: (dict(R=x.R, S=x.cov), lambda a: L().moments.shrink_covariance_ledoit_wolf(a["R"], a["S"], target="nope")),
    "lw_s": lambda x: (dict(R=x.R, S=short(x.cov)), lambda a: L().moments.shrink_covariance_ledoit_wolf(a["R"], a["S"])),
    "oas_nan": lambda x: (dict(R=poisoned(x, x.R0)), lambda a: L().moments.shrink_covariance_oas(a["R"])),
    "tyler_nan": lambda x: (dict(R=poisoned(x, x.R0)), lambda a: L().moments.robust_covariance_tyler(a["R"])),
    "tyler_flat": lambda x: (dict(R=x.tab(np.zeros((20, x.cfg["N"])))), lambda a: L().moments.robust_covariance_tyler(a["R"])),
    "tyler_t": lambda x: (dict(R=x.R, t=np.eye(9)), lambda a: L().moments.robust_covariance_tyler(a["R"], target=a["t"], shrinkage=0.1)),
    "glasso_f": lambda x: (dict(R=x.tab(np.ones((20, x.cfg["N"])))), lambda a: L().moments.sparse_precision_glasso(a["R"], alpha=0.1)),
    "glasso_a": lambda x: (dict(R=x.R), lambda a: L().moments.sparse_precision_glasso(a["R"], alpha=-1.0)),
    "poet_k": lambda x: (dict(R=x.R), lambda a: L().moments.factor_covariance_poet(a["R"], k=0)),
    "mom_b": lambda x: (dict(R=x.R), lambda a: L().moments.robust_mean_median_of_means(a["R"], n_blocks=0)),
    "nls": lambda x: (dict(R=x.R), lambda a: L().moments.shrink_covariance_nls(a["R"])),
    "prob_neg": lambda x: (dict(p=x.fmt(np.linspace(-1, 1, 9))), lambda a: L().probabilities.normalize_probability_vector(a["p"])),
    "prob_n": lambda x: (dict(p=x.fmt(np.linspace(1, 2, 9))), lambda a: L().probabilities.resolve_probabilities(a["p"], 8)),
    "bl_none": lambda x: (dict(S=x.spd), lambda a: L().moments.posterior_moments_black_litterman(prior_cov=a["S"])),
    "bl_ra": lambda x: (dict(S=x.spd, w=x.w), lambda a: L().moments.posterior_moments_black_litterman(prior_cov=a["S"], market_weights=a["w"], risk_aversion=-1.0)),
    "bl_ineq": lambda x: (dict(S=x.spd, mu=x.mu, v={x.asset(0): (">=", 0.1)}), lambda a: L().moments.posterior_moments_black_litterman(prior_cov=a["S"], prior_mean=a["mu"], mean_views=a["v"])),
    "bl_key": lambda x: (dict(S=x.spd, mu=x.mu, v={"nope": 0.1}), lambda a: L().moments.posterior_moments_black_litterman(prior_cov=a["S"], prior_mean=a["mu"], mean_views=a["v"])),
    "bl_om": lambda x: (dict(S=x.spd, mu=x.mu, v={x.asset(0): 0.1}), lambda a: L().moments.posterior_moments_black_litterman(prior_cov=a["S"], prior_mean=a["mu"], mean_views=a["v"], omega=np.ones((3, 2)))),
    "niw_t0": lambda x: (x.niw_args(), lambda a: L().bayesian.NIWPosterior(**dict(a, t0=0))),
    "niw_early": lambda x: (x.niw_args(), lambda a: L().bayesian.NIWPosterior(**a).get_mu_ce()),
    "niw_twice": lambda x: (dict(n=x.niw, u=x.niw_update()), lambda a: a["n"].update(**a["u"])),
    "niw_nan": lambda x: (dict(a=x.niw_args(), u=dict(x.niw_update(), sample_sigma=poisoned(x, x.spd0))), lambda a: (lambda n: (n.update(**a["u"]), n.get_sigma_ce()))(L().bayesian.NIWPosterior(**a["a"]))),
    "niw_p": lambda x: (dict(n=x.niw), lambda a: a["n"].cred_radius_mu(1.5)),
    "chi2": lambda x: (dict(p=1.0), lambda a: L().bayesian.chi2_quantile(a["p"], 3)),
    "chol": lambda x: (dict(m=poisoned(x, x.spd0)), lambda a: L().bayesian._cholesky_pd(np.asarray(a["m"], float))),
    "chol_asym": lambda x: (dict(m=x.fmt(x.spd0 + np.triu(np.full((x.cfg["N"],) * 2, 1e-6 * x.spd0[0, 0]), 1))), lambda a: L().bayesian._cholesky_pd(a["m"])),
    "psd": lambda x: (dict(m=x.fmt(x.R0)), lambda a: L().utils.validation.ensure_psd_matrix(a["m"])),
    "psd_neg": lambda x: (dict(m=x.fmt(-x.spd0)), lambda a: L().utils.validation.ensure_psd_matrix(a["m"])),
    "ep": lambda x: (dict(p=x.fmt(np.full((9, 1), 1 / 9)), A=x.fmt(np.vstack([np.ones(9), np.arange(9.0)])), b=x.fmt(np.array([[1.0], [99.0]]))), lambda a: L().views.entropy_pooling(a["p"], a["A"], a["b"])),
    "ep_m": lambda x: (dict(p=x.fmt(np.full((9, 1), 1 / 9)), A=x.fmt(np.ones((1, 9))), b=x.fmt(np.array([[1.0]]))), lambda a: L().views.entropy_pooling(a["p"], a["A"], a["b"], method="nope")),
    "fv_key": lambda x: (dict(R=x.views_prior, v={"nope": 0.1}), lambda a: L().FlexibleViewsProcessor(a["R"], mean_views=a["v"])),
    "fv_nan": lambda x: (dict(R=x.views_prior, v={x.asset(0): float("nan")}), lambda a: L().FlexibleViewsProcessor(a["R"], mean_views=a["v"])),
    "fv_far": lambda x: (dict(R=x.views_prior, v={x.asset(0): 1e3}), lambda a: L().FlexibleViewsProcessor(a["R"], mean_views=a["v"])),
    "fv_vol": lambda x: (dict(R=x.views_prior, v={x.asset(0): -0.1}), lambda a: L().FlexibleViewsProcessor(a["R"], vol_views=a["v"])),
    "fv_corr": lambda x: (dict(R=x.views_prior, v={(x.asset(0), x.asset(1)): 1.5}), lambda a: L().FlexibleViewsProcessor(a["R"], corr_views=a["v"])),
    "fv_q": lambda x: (dict(R=x.views_prior, v={x.asset(0): (0.0, 1.5)}), lambda a: L().FlexibleViewsProcessor(a["R"], quantile_views=a["v"])),
    "fv_cvar": lambda x: (dict(R=x.views_prior, v={x.asset(0): (-1e3, 0.1)}), lambda a: L().FlexibleViewsProcessor(a["R"], cvar_views=a["v"])),
    "fv_rank": lambda x: (dict(R=x.views_prior, v=[x.asset(0)]), lambda a: L().FlexibleViewsProcessor(a["R"], rank_mean=a["v"])),
    "fv_p": lambda x: (dict(R=x.views_prior, p=np.full(3, 1 / 3)), lambda a: L().FlexibleViewsProcessor(a["R"], a["p"])),
    "fv_none": lambda x: (dict(mu=x.mu), lambda a: L().FlexibleViewsProcessor(prior_mean=a["mu"])),
    "fv_fn": lambda x: (dict(mu=x.mu, S=x.spd), lambda a: L().FlexibleViewsProcessor(prior_mean=a["mu"], prior_cov=a["S"], num_scenarios=20, distribution_fn=lambda m, S, n: np.zeros((n - 1, len(m))))),
    "proj_h": lambda x: (dict(R=x.R), lambda a: L().project_scenarios(a["R"], 0)),
    "proj_n": lambda x: (dict(R=x.R), lambda a: L().project_scenarios(a["R"], 2, n_simulations=0)),
    "proj_p": lambda x: (dict(R=x.R, p=np.full(3, 1 / 3)), lambda a: L().project_scenarios(a["R"], 2, p=a["p"], seed=1)),
    "proj_re": lambda x: (dict(R=x.R), lambda a: L().project_scenarios(a["R"], 2, n_simulations=9, seed=1, reprice=lambda d: d[:-1])),
    "s2c": lambda x: (dict(R=x.fmt(x.R0 - 3.0)), lambda a: L().utils.projection.convert_scenarios_simple_to_compound(a["R"])),
    "s2l": lambda x: (dict(mu=x.vec(np.full(x.cfg["N"], -2.0)), S=x.spd), lambda a: L().utils.projection.simple2log(a["mu"], a["S"])),
    "comp": lambda x: (dict(n=list(x.names)), lambda a: L().utils.projection.compose_repricers({"zz": np.expm1}, a["n"])),
    "perf_c": lambda x: (dict(w=x.w, R=x.R), lambda a: L().utils.performance.performance_report(a["w"], a["R"], confidence=1.5)),
    "perf_w": lambda x: (dict(w=pd.Series([1.0], index=["nope"]), R=x.df), lambda a: L().utils.performance.performance_report(a["w"], a["R"])),
    "stress_t": lambda x: (dict(w=x.w, R=x.R), lambda a: L().stress.stress_test(a["w"], a["R"], transform=lambda r: r[:-1])),
    "stress_w": lambda x: (dict(w=pd.Series([1.0], index=["nope"]), R=x.df), lambda a: L().stress.stress_test(a["w"], a["R"])),
    "cvar_c": lambda x: (dict(w=x.fmt(x.w0), R=x.fmt(x.R0)), lambda a: L().utils.functions.portfolio_cvar(a["w"], a["R"], None, 2.0)),
    "dist": lambda x: (dict(mu=x.mu), lambda a: L().AssetsDistribution(mu=a["mu"])),
    "dist_s": lambda x: (dict(mu=x.mu, S=short(x.spd)), lambda a: L().AssetsDistribution(mu=a["mu"], cov=a["S"])),
    "dist_p": lambda x: (dict(R=x.R), lambda a: L().AssetsDistribution(scenarios=a["R"], probabilities=np.full(3, 1 / 3))),
    "dist_i": lambda x: (dict(mu=x.mu, S=x.fmt(x.spd0 - 3 * np.eye(x.cfg["N"]) * x.spd0[0, 0])), lambda a: L().PortfolioWrapper.from_moments(a["mu"], a["S"]).variance_frontier(2)),
    "wr_scen": lambda x: (dict(w=x.wrap_s), lambda a: a["w"].variance_frontier(2)),
    "wr_n": lambda x: (dict(w=x.wrap_b), lambda a: a["w"].variance_frontier(0)),
    "wr_al": lambda x: (dict(w=x.wrap_b), lambda a: a["w"].cvar_frontier(2, 1.5)),
    "wr_far": lambda x: (dict(w=x.wrap_b), lambda a: a["w"].min_variance_at_return(1e3)),
    "wr_farc": lambda x: (dict(w=x.wrap_b), lambda a: a["w"].min_cvar_at_return(1e3)),
    "wr_lam": lambda x: (dict(w=x.wrap_b), lambda a: a["w"].robust_lambda_frontier(2, lambdas=[-1.0])),
    "wr_gam": lambda x: (dict(w=x.wrap_b), lambda a: a["w"].solve_robust_gamma_portfolio(1.0, -1.0)),
    "wr_rb": lambda x: (dict(w=x.wrap_b, b=x.fmt(np.full(x.cfg["N"] + 1, 0.1))), lambda a: a["w"].relaxed_risk_parity_portfolio(risk_budgets=a["b"])),
    "wr_rb0": lambda x: (dict(w=x.wrap_b, b=x.fmt(np.zeros(x.cfg["N"]))), lambda a: a["w"].relaxed_risk_parity_portfolio(risk_budgets=a["b"])),
    "wr_both": lambda x: (dict(w=x.wrap_b), lambda a: a["w"].relaxed_risk_parity_portfolio(target_multiplier=-1.0)),
    "wr_cost": lambda x: (dict(mu=x.mu, S=x.spd), lambda a: L().PortfolioWrapper.from_moments(a["mu"], a["S"], costs=L().portfolioapi.TransactionCosts(initial_weights=np.ones(9), proportional_costs=np.ones(9))).robust_lambda_frontier(2)),
    "wr_infeas": lambda x: (dict(w=x.wrap_b, c={"bounds": (0.0, 0.01)}), lambda a: a["w"].variance_frontier(3, constraints=a["c"])),
    "wr_infc": lambda x: (dict(w=x.wrap_b, c={"bounds": (0.0, 0.01)}), lambda a: a["w"].cvar_frontier(3, constraints=a["c"])),
    "wr_infr": lambda x: (dict(w=x.wrap_b, c={"bounds": (0.0, 0.01)}), lambda a: a["w"].relaxed_risk_parity_portfolio(constraints=a["c"])),
    "fr_lab": lambda x: (dict(f=x.fr_v), lambda a: a["f"].min_risk(risk_label="nope")),
    "fr_risk": lambda x: (dict(f=x.fr_v), lambda a: a["f"].at_risk(-1.0)),
    "fr_ret": lambda x: (dict(f=x.fr_v), lambda a: a["f"].at_return(1e3)),
    "fr_pct": lambda x: (dict(f=x.fr_v), lambda a: a["f"].at_percentile(200.0)),
    "fr_col": lambda x: (dict(f=x.fr_v, p=x.prices), lambda a: a["f"].as_discrete_allocation(99, a["p"], 100.0)),
    "ens_dim": lambda x: (dict(W=x.W), lambda a: L().ensembles.average_exposures(a["W"], [0.5, 0.5])),
    "ens_nan": lambda x: (dict(W=x.W), lambda a: L().ensembles.average_exposures(a["W"], [0.0] * 5)),
    "ens_mix": lambda x: (dict(f=x.fr_v), lambda a: L().ensembles.stack_portfolios([a["f"], np.ones(9)], L=2)),
    "lots": lambda x: (dict(w=pd.Series(x.w0, index=x.names), p=x.prices, l={x.names[0]: 0}), lambda a: L().discretize_weights(a["w"], a["p"], 500.0, lot_sizes=a["l"])),
    "tot": lambda x: (dict(w=pd.Series(x.w0, index=x.names), p=x.prices), lambda a: L().discretize_weights(a["w"], a["p"], -5.0)),
    "mip_inf": lambda x: (dict(w=pd.Series(x.w0, index=x.names), p=x.prices), lambda a: L().discretize_weights(a["w"], a["p"], 500.0, method="milp", max_cash=-1.0)),
    "cls_lam": lambda x: (dict(mu=x.fmt(x.mu0), S=x.fmt(x.spd0)), lambda a: L().optimization.RobustOptimizer(a["mu"], a["S"]).solve_lambda_variant(-1.0)),
    "cls_rrp": lambda x: (dict(mu=x.fmt(x.mu0), S=x.fmt(x.spd0)), lambda a: L().optimization.RelaxedRiskParity(a["mu"], a["S"]).solve(lambda_reg=-1.0, return_target=None)),
    "cls_G": lambda x: (dict(mu=x.fmt(x.mu0), S=x.fmt(x.spd0)), lambda a: L().optimization.RelaxedRiskParity(a["mu"], a["S"], G=np.ones((1, 9)), h=np.ones(1)).solve(lambda_reg=0.1, return_target=None)),
}


def a_rej(x, p, cb):
    a, f = REJ[p["k"]](x)
    return dict(a=a, f=f)


reg("reject", "read", lambda r, c: {"k": r.choice(sorted(REJ))}, a_rej, lambda a: a["f"](a["a"]))
reg("reject2", "perf", lambda r, c: {"k": r.choice(sorted(REJ))}, a_rej, lambda a: a["f"](a["a"]))
