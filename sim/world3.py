"""Further ways of calling: integer asset labels, odd holdings and costs, hand-made frontiers, labelled inputs everywhere."""
import numpy as np
import pandas as pd

from . import boot
from .world import READS, Ctx, reg, ret_level, r_read, view_kwargs


# -- integer-labelled data, assets addressed by label, position or digit string ----------
VK = ["mean", "mean_pair", "vol", "var", "corr", "skew", "quantile", "cvar", "rank"]


class _Keys:
    """A view-key style over the same data."""

    def __init__(self, x, labels, style):
        self.cfg, self.R0, self.p0, self.mu0, self.cov0 = x.cfg, x.R0, x.p0, x.mu0, x.cov0
        self.labels, self.style = labels, style

    def asset(self, i):
        if self.style == "digit":
            return str(i)
        if self.style == "labstr":
            return str(self.labels[i])
        return self.labels[i]


def g_vi(rng, cfg):
    return {"kinds": rng.sample(VK, rng.choice([1, 1, 2])), "lab": rng.choice(["seq", "seq", "tens", "perm"]), "style": rng.choice(["digit", "labstr", "label"]),
            "seq": rng.random() < 0.3, "st": rng.choice([0.05, 0.12, 0.6]), "bl": rng.random() < 0.25}


def a_vi(x, p, cb):
    N = x.cfg["N"]
    labels = {"seq": list(range(N)), "tens": [10 * (i + 1) for i in range(N)], "perm": [int(i) for i in x.rng("ilab").permutation(N)]}[p["lab"]]
    # a digit string is a label where there is one with that value, otherwise a position
    kx = _Keys(x, labels, p["style"])
    kw = view_kwargs(kx, p["kinds"], p["st"])
    df = pd.DataFrame(x.R0.copy(), columns=labels)
    if p["bl"]:
        S = pd.DataFrame(x.spd0.copy(), index=labels, columns=labels)
        mv = {kx.asset(0): float(x.mu0[0] * 1.1), (kx.asset(0), kx.asset(1)): float(0.1 * np.sqrt(x.spd0[0, 0]))}
        return dict(bl=dict(prior_cov=S, prior_mean=pd.Series(x.mu0.copy(), index=labels), mean_views=mv,
                            view_confidences={k: 0.4 for k in mv}, omega="idzorek"))
    kw["sequential"] = p["seq"]
    return dict(R=df, p=None if x.p0 is None else pd.Series(x.p0.copy(), index=df.index), kw=kw)


def r_vi(a):
    V = boot.LIB.views
    if "bl" in a:
        return V.BlackLittermanProcessor(**a["bl"]).get_posterior()
    v = V.FlexibleViewsProcessor(a["R"], a["p"], **a["kw"])
    return (v.get_posterior_probabilities(), v.get_posterior())


reg("views_int", "views", g_vi, a_vi, r_vi)


# -- holdings and costs of every shape -----------------------------------------------------
def g_hold(rng, cfg):
    return {"k": rng.choice(["var", "minv", "rob", "gam", "cvar", "minc"]), "h": rng.choice(["round", "half", "none", "list", "short", "over", "series"]),
            "mic": rng.choice(["vec", "zero", None]), "pc": rng.choice(["vec", "zero", None, "vec"]), "how": rng.choice(["call", "call", "wrap"]),
            "c": rng.choice([0, 0, 1, 3, 5])}


def holdings(x, kind):
    w = x.w0.copy()
    if kind == "round":
        return np.round(w, 3)
    if kind == "half":
        return 0.5 * w
    if kind == "none":
        return np.zeros_like(w)
    if kind == "list":
        return [float(v) for v in w]
    if kind == "short":
        w[0] -= 0.4
        w[1] += 0.4
        return w
    if kind == "over":
        return w * 1.0004
    return pd.Series(w[::-1].copy(), index=x.names[::-1]) if x.cfg["lab"] else x.fmt(w)


def a_hold(x, p, cb):
    N = x.cfg["N"]
    s2, s1 = float(np.mean(np.diag(x.cov0))), float(np.mean(np.abs(x.mu0)))
    mic = {"vec": np.linspace(0.5, 1.5, N) * s2, "zero": np.zeros(N), None: None}[p["mic"]]
    pc = {"vec": np.linspace(0.01, 0.05, N) * s1, "zero": np.zeros(N), None: None}[p["pc"]]
    return dict(k=p["k"], how=p["how"], c=x.constraints(p["c"]), t=ret_level(x, 0.4), d=x.dist_b, w=x.wrap_b,
                g=float(np.sqrt(s2)) * 4, kw=dict(initial_weights=holdings(x, p["h"]), market_impact_costs=mic, proportional_costs=pc))


def r_hold(a):
    L = boot.LIB
    t = L.portfolioapi.TransactionCosts(**a["kw"])
    w, kw = (a["w"], dict(constraints=a["c"], costs=t)) if a["how"] == "call" else \
        (L.PortfolioWrapper(a["d"], constraints=a["c"], costs=t), {})
    return {"var": lambda: w.variance_frontier(3, **kw), "minv": lambda: w.min_variance_at_return(a["t"], **kw),
            "rob": lambda: w.robust_lambda_frontier(2, 1.0, **kw), "gam": lambda: w.solve_robust_gamma_portfolio(0.5, a["g"], **kw),
            "cvar": lambda: w.cvar_frontier(3, 0.1, **kw), "minc": lambda: w.min_cvar_at_return(a["t"], 0.1, **kw)}[a["k"]]()


reg("holdings", "solver frontier", g_hold, a_hold, r_hold)


# -- frontiers built by hand: negative, unsorted, tied and single risks ----------------------
def hand(x, kind):
    L = boot.LIB
    N = x.cfg["N"]
    r = x.rng("hand" + kind)
    M = 1 if kind == "one" else 5
    W = r.dirichlet(np.full(N, 1.5), M).T
    s = np.sqrt(np.mean(np.diag(x.cov0)))
    risks = {"neg": np.linspace(-0.5, 1.0, M), "unsorted": r.uniform(0.2, 1.0, M), "tied": np.array([0.2, 0.4, 0.4, 0.4, 0.9])[:M],
             "one": np.array([0.3]), "allneg": np.linspace(-1.0, -0.2, M)}[kind] * s
    names = list(x.names) if x.cfg["lab"] else None
    return L.portfolioapi.PortfolioFrontier(
        weights=W, returns=x.mu0 @ W, risks=risks, risk_measure="Volatility" if kind == "unsorted" else "CVaR (alpha = 0.05)", asset_names=names,
        metadata=[{"i": i, "tag": {"a": i}} for i in range(M)],
        alternate_risks={"Alt": np.sort(r.uniform(-0.2, 1.0, M))[::-1] * s, "Flat": np.zeros(M)})


HANDS = ["neg", "unsorted", "tied", "one", "allneg"]
for _k in HANDS:
    setattr(Ctx, "mk_fr_h_" + _k, (lambda k: lambda self: hand(self, k))(_k))


def g_hand(rng, cfg):
    return {"h": rng.choice(HANDS), "k": rng.choice([k for k in READS if k != "select"] + ["pct_more", "lookup", "alloc", "ens"]),
            "u": rng.choice([0.0, 0.3, 0.5, 0.9, 1.0]), "alt": rng.choice([None, None, "Alt", "Flat"])}


def a_hand(x, p, cb):
    return dict(f=getattr(x, "fr_h_" + p["h"]), k=p["k"], u=p["u"], lab=p["alt"], pr=x.prices)


def r_hand(a):
    f, k, u, lab = a["f"], a["k"], a["u"], a["lab"]
    if k == "pct_more":
        return (f.risk_percentiles(lab), f.at_percentile(100 * u, risk_label=lab), f.index_at_risk_percentile(u))
    if k == "lookup":
        return (f.available_risk_measures(), f.max_return(), f.min_risk())
    if k == "alloc":
        return f.as_discrete_allocation(0, a["pr"], 5000.0, method="greedy")
    if k == "ens":
        return boot.LIB.ensembles.average_frontiers([f, f]) if f.weights.shape[1] > 1 else f.to_samples()
    return r_read(dict(f=f, k=k, u=u, alt=lab))


reg("frontier_hand", "read", g_hand, a_hand, r_hand)
