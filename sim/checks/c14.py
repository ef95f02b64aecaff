"""C14: frontier columns, returns, risks and metadata always describe the same portfolio."""
import copy
import math
import warnings

import numpy as np
import pandas as pd

from .. import boot, canon, common, faults, oracle, sched, world
from ..common import Check, Result, rnd

KINDS = ["variance", "cvar", "cvar", "robust", "robust", "rrp", "hand"]
WR = {"variance": "mbbkl", "cvar": "sbbk", "robust": "mbbklr", "rrp": "mbbl"}
CRASH = ["MemoryError", "ValueError", "LinAlgError", "FloatingPointError", "RuntimeError", "KeyError", "TypeError"]
RC = [None, None, "good", "good", "permuted", "missing", "shape", "text", "nan", "indefinite"]


class Ctx14(world.Ctx):
    """The world with return levels, scales and mean estimates that pull the figures apart."""

    def mk_R0(self):
        R = super().mk_R0()
        c = self.cfg
        s = float(np.mean(R.std(0)))
        return np.clip((R + c.get("off", 0.0) * s) * c.get("k", 1.0), -0.85, 40.0)

    def mk_mu0(self):
        m = super().mk_mu0()
        t = self.cfg.get("tilt", 0.0)
        return m + t * float(np.mean(self.R0.std(0))) * self.rng("tilt").normal(size=m.size) if t else m

    def mk_cov0(self):
        p = self.p0 if self.p0 is not None else np.full(self.cfg["T"], 1.0 / self.cfg["T"])
        X = self.R0 - p @ self.R0
        S = (X * p[:, None]).T @ X
        return 0.5 * (S + S.T)


# -- references -----------------------------------------------------------------------------
def vols(W, S):
    return np.sqrt(np.clip(np.einsum("ij,ik,kj->j", W, S, W), 0, None))


def scenario_cov(R, p):
    X = R - p @ R
    return (X * p[:, None]).T @ X


def cvars(W, R, p, a):
    return np.array([oracle.tail_mean(R @ W[:, j], p, a) for j in range(W.shape[1])])


def envelope(x, y):
    """Lower convex envelope of the points (x, y) at every x (x increasing)."""
    e = np.array(y, float)
    n = len(x)
    for i in range(n):
        for j in range(i):
            for k in range(i + 1, n):
                t = (x[i] - x[j]) / (x[k] - x[j]) if x[k] > x[j] else 0.0
                e[i] = min(e[i], (1 - t) * y[j] + t * y[k])
    return e


def off(a, b, scale, rtol=1e-8, atol=1e-15):
    """None if arrays agree, else a description."""
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        return f"shape {a.shape} for {b.shape}"
    if not np.all(np.isfinite(a)):
        return f"not finite: {a}"
    d = np.abs(a - b)
    if np.all(d <= atol + rtol * np.maximum(np.abs(b), scale)):
        return None
    j = int(np.argmax(d))
    return f"entry {j}: {a[j]!r}, recomputed {b[j]!r}"


# -- selections -----------------------------------------------------------------------------
def risk_of(F, label):
    if label is None or label == F["measure"]:
        return F["risks"]
    return F["alt"].get(label)


def admissible(F, sel):
    """Columns a selection may return (set), or the name of the error it must raise, or None (not judged)."""
    k, a = sel["k"], sel.get("a")
    ret = F["returns"]
    risks = risk_of(F, sel.get("label"))
    n = len(ret)
    if risks is None:
        return "KeyError"
    if k == "min_risk":
        return set(np.flatnonzero(risks == risks.min()))
    if k == "max_return":
        return set(np.flatnonzero(ret == ret.max()))
    if k == "tangency":
        if not math.isfinite(a):
            return "ValueError"
        r = F["risks"]
        if np.all(np.isclose(r, 0)):
            return "InfeasibleOptimizationError" if np.max(np.abs(r)) < 1e-9 else None
        if np.any(r < 0):
            return None
        with np.errstate(all="ignore"):
            s = (ret - a) / r
        fin = np.isfinite(s)
        if not fin.any():
            return None
        best = s[fin].max()
        return set(np.flatnonzero(fin & (s >= best - 1e-12 * abs(best)))) | set(np.flatnonzero(np.isposinf(s)))
    if k == "at_risk":
        ok = np.flatnonzero(risks <= a)
        return set(ok[ret[ok] == ret[ok].max()]) if ok.size else "InfeasibleOptimizationError"
    if k == "at_return":
        ok = np.flatnonzero(ret >= a)
        return set(ok[risks[ok] == risks[ok].min()]) if ok.size else "InfeasibleOptimizationError"
    if k == "closest_risk":
        if not math.isfinite(a):
            return "ValueError"
        d = np.abs(risks - a)
        return set(np.flatnonzero(d <= d.min() + 1e-13 * np.max(np.abs(risks))))
    if k in ("at_percentile", "index"):
        if not 0.0 <= a <= 100.0:
            return "ValueError"
        q = a / 100.0 if a > 1.0 else a
        if n == 1:
            return {0}
        lo = np.array([np.sum(risks < v) for v in risks])
        hi = np.array([np.sum(risks <= v) - 1 for v in risks])
        d = np.abs(np.arange(n) / (n - 1) - q)
        best = set(np.flatnonzero(d <= d.min() + 1e-12))
        return {j for j in range(n) if any(lo[j] <= b <= hi[j] for b in best)}
    raise KeyError(k)


def gen_level(r, v):
    v = np.asarray(v, float)
    u = r.random()
    if u < 0.35:
        return float(r.choice(list(v)))
    if u < 0.85:
        return float(v.min() + r.uniform(-0.1, 1.1) * (np.ptp(v) or abs(v.min()) or 1.0))
    return r.choice([float("nan"), float("inf"), float("-inf"), 0.0])


class C14(Check):
    id = "C14"
    n_quick = 1500
    n_thorough = 26000
    rule = ("one case = one frontier of some kind and size (or a hand-built one), judged column by column against independent "
            "recomputation, rebuilt with errors at library lines (biased to the overlays), solver and linear-algebra failures and unusable "
            "overlay inputs, then queried by a history of selections whose results are overwritten in between; non-trivial when a fault "
            "fired or a selection was judged; distinct by (kind, overlays present, fault places, selection kinds)")
    sig_measure = "sequence of (kind, outcome, overlays present, fault place, selection kind and outcome)"

    # -- generation -------------------------------------------------------------------------
    def gen(self, rng, i, tier):
        cfg = world.gen_cfg(rng)
        cfg["off"] = rng.choice([0, 0, 0, 0, 4.0, 2.0, -1.0])
        cfg["k"] = rng.choice([1, 1, 1, 1, 0.05, 2e-3]) if cfg["off"] >= 0 else 1
        cfg["tilt"] = rng.choice([0, 0.3, 0.3])
        kind = rng.choice(KINDS)
        c = {"cfg": cfg, "seed": rng.randrange(1 << 30), "kind": kind, "crashes": rng.choice([0, 1, 2, 3]), "plans": rng.choice([0, 1, 2]),
             "sels": rng.randint(3, 12)}
        if kind == "hand":
            c["p"] = {"N": rng.randint(1, 5), "M": rng.choice([1, 2, 3, 5, 8, 13]), "alt": rng.choice([0, 1, 2]), "ties": rng.random() < 0.4,
                      "names": rng.choice([None, "str", "int"]), "meta": rng.random() < 0.5, "neg": rng.random() < 0.2, "zero": rng.random() < 0.2}
            return c
        p = {"w": rng.choice(WR[kind]), "n": rng.choice([1, 2, 3, 4, 5, 7]), "c": rng.choice([0, 0, 0, 1, 2, 3, 4] + ([5] if kind == "variance" else [])),
             "costs": rng.random() < 0.25}
        if kind == "cvar":
            p.update(a=rng.choice([0.05, 0.1, 0.25, 0.5, 0.333]), cx=rng.random() < 0.65)
        elif kind == "robust":
            p.update(ml=rng.choice([0.0, 0.3, 2.0, 8.0]), ls=rng.choice([None, None, [0.7, 0.0, 1.5], [0.3], [2.0, 0.1, 0.5, 0.0, 0.9], [1.0, 1.0, 0.2]]),
                     rc=rng.choice(RC), gen=rng.random() < 0.3)
        elif kind == "rrp":
            p.update(lam=rng.choice([0.0, 0.05, 0.2, 1.0]), mm=rng.choice([1.0, 1.3, 2.5]), rp=rng.random() < 0.7,
                     tm=rng.choice([None, None, [1.2, 0.8], [1.5, 1.0, 0.0, 1.1], [6.0, 1.01]]), bud=rng.random() < 0.3, gen=rng.random() < 0.3)
            p["c"] = rng.choice([0, 0, 0, 1, 2, 4])
            p["costs"] = False
            p["n"] = min(p["n"], 4)
        c["p"] = p
        return c

    def shrink(self, case):
        for f in ("crashes", "plans", "sels"):
            if case[f]:
                yield dict(case, **{f: 0})
                yield dict(case, **{f: case[f] - 1})
        if case["kind"] != "hand":
            for k, v in (("costs", False), ("c", 0), ("n", 2), ("n", 3)):
                if case["p"][k] != v:
                    yield dict(case, p=dict(case["p"], **{k: v}))
        yield from common.shrink_ops(dict(case, ops=[]))

    # -- building -----------------------------------------------------------------------------
    def return_cov(self, x, how):
        S = 1.7 * x.spd0 + 0.1 * np.mean(np.diag(x.spd0)) * np.ones_like(x.spd0)
        n = len(S)
        good = x.mat(S)
        if how == "good":
            return good, S
        if how == "permuted" and x.cfg["lab"]:
            o = list(np.random.default_rng(x.cfg["seed"]).permutation(n))
            return good.iloc[o, o], S
        if how == "permuted":
            return S.copy(), S
        if how == "missing" and x.cfg["lab"]:
            return good.rename(index={x.names[0]: "other"}, columns={x.names[0]: "other"}), None
        if how in ("missing", "shape"):
            return S[:-1, :-1] if n > 1 else np.ones((2, 2)), None
        if how == "text":
            return [["a"] * n] * n, None
        if how == "nan":
            S = S.copy()
            S[0, 0] = np.nan
            return S, None
        if how == "indefinite":
            S = S.copy()
            S[0, 0] = -3.0 * S[0, 0]
            return S, S
        return None, None

    def build(self, x, case):
        """(thunk, wrapper) that computes the frontier afresh."""
        p, kind = case["p"], case["kind"]
        a = world.a_wrap(x, p)
        w, kw = a["w"], a["kw"]
        it = (lambda v: (q for q in v)) if p.get("gen") else (lambda v: v)
        if kind == "variance":
            return lambda: w.variance_frontier(p["n"], **kw)
        if kind == "cvar":
            return lambda: w.cvar_frontier(p["n"], p["a"], enforce_convexity=p["cx"], **kw)
        if kind == "robust":
            rc = self.return_cov(x, p["rc"])[0]
            return lambda: w.robust_lambda_frontier(p["n"], max_lambda=p["ml"], lambdas=None if p["ls"] is None else it(p["ls"]), return_cov=rc, **kw)
        b = np.arange(1, x.cfg["N"] + 1, dtype=float)
        bud = x.fmt(b / b.sum()) if p["bud"] else None
        kw.pop("costs")
        return lambda: w.relaxed_risk_parity_frontier(p["n"], p["mm"], lambda_reg=p["lam"], target_multipliers=None if p["tm"] is None else it(p["tm"]),
                                                      include_risk_parity=p["rp"], risk_budgets=bud, **kw)

    # -- judgement ----------------------------------------------------------------------------
    def judge(self, res, x, case, F, ctx, clean):
        p, kind = case["p"], case["kind"]
        P = oracle.wrapper_problem(x, p)
        bad = lambda key, msg: res.bad(key, f"{ctx}: {msg}")
        W, ret, risks = (np.asarray(v, float) for v in (F.weights, F.returns, F.risks))
        alt = dict(F.alternate_risks or {})
        M = W.shape[1] if W.ndim == 2 else -1
        if W.ndim != 2 or W.shape[0] != P.n or ret.shape != (M,) or risks.shape != (M,):
            return bad("malformed", f"weights {W.shape}, returns {ret.shape}, risks {risks.shape}")
        if F.asset_names != (list(x.names) if x.cfg["lab"] else None):
            bad("labels", f"{F.asset_names}")
        for k, v in alt.items():
            if np.shape(v) != (M,) or not np.all(np.isfinite(np.asarray(v, float))):
                bad("partial overlay", f"{k}: {v}")
                return
        res.count("columns_judged", M)
        sw = float(np.max(np.abs(W)))
        d = off(ret, P.mu_rep @ W, float(np.max(np.abs(P.mu_rep))) * sw)
        if d:
            bad("return", d)
        R, pr = P.R, P.p
        if R is not None:
            srisk = float(np.max(np.abs(R))) * sw
            svol = float(np.sqrt(np.max(np.diag(scenario_cov(R, pr))))) * sw
        vol_ok, a_of = [], {}
        if kind in ("variance", "rrp"):
            v0 = vols(W, P.S_rep)
            d = off(risks, v0, 0.0, 1e-7, 1e-15 * sw ** 2 * P.n / max(float(v0.min()), 1e-12))
            if d:
                bad("risk", d)
            want = ["CVaR (95%)"] if R is not None else []
        elif kind == "robust":
            rr = np.array([P.radius(W[:, j]) for j in range(M)])
            d = off(risks, rr, 0.0, 1e-6, 1e-9 * float(np.sqrt(np.max(np.diag(P.unc)))))
            if d and ("linalg" in ctx or "LinAlgError" in ctx):       # a failed factorisation is retried with a documented diagonal jitter
                d = off(risks ** 2, rr ** 2, 0.0, 1e-4, 1e-9 * sw ** 2)
            if d:
                bad("risk", d)
            if np.any(np.diff(risks) < 0):
                bad("order", f"risks {risks} not ascending")
            C = self.return_cov(x, p["rc"])[1] if p["rc"] else (P.S_rep if p["w"] == "r" else None)
            if p["rc"] == "indefinite" and np.any(np.einsum("ij,ik,kj->j", W, C, W) < 0):
                C = None
            want = ["CVaR (95%)", "Volatility"] if R is not None else []
            if C is not None:
                vol_ok = [C]
                want = want + (["Volatility"] if "Volatility" not in want else [])
            if R is not None and (C is None or not clean):      # falls back to the scenarios
                vol_ok.append(scenario_cov(R, pr))
        else:
            raw = cvars(W, R, pr, p["a"])
            if np.any(np.diff(ret) < 0):
                bad("order", f"returns {ret} not ascending")
            vol_ok = [scenario_cov(R, pr)]
            want = ["Volatility"] + [k for k in alt if "raw" in k]
            if not any("raw" in k for k in alt) and clean:
                bad("overlay missing", f"no raw CVaR among {list(alt)}")
            if p["cx"]:
                cm = np.maximum.accumulate(raw)
                gaps = np.diff(ret)
                span, yspan = float(np.ptp(ret)), float(np.ptp(cm))
                if M < 3 or span == 0.0 or np.min(gaps) > 1e-5 * span:
                    ref = envelope(ret, cm)
                    d = off(risks, ref, yspan, 1e-5, 1e-10 * srisk)
                    if d:
                        bad("risk", "convexity-corrected CVaR " + d + f"; raw {raw}, returns {ret}")
                else:
                    res.count("envelope_near_ties")
                    if np.any(risks > cm + 1e-8 * srisk) or np.any(np.diff(risks) < -1e-8 * srisk):
                        bad("risk", f"convexity-corrected CVaR {risks} for raw {raw}")
            else:
                d = off(risks, raw, srisk)
                if d:
                    bad("risk", d)
        for k, v in alt.items():
            if "CVaR" in k:
                a = p["a"] if "raw" in k else 0.05
                if R is None:
                    bad("overlay", f"{k} without scenarios")
                    continue
                d = off(v, cvars(W, R, pr, a), srisk)
            elif k.startswith("Volatility"):
                ds = [off(v, vols(W, C), 0.0, 1e-6, 1e-9 * float(np.sqrt(np.max(np.abs(C)))) * sw) for C in vol_ok]
                d = None if None in ds else (ds or [f"{v} although no covariance of returns is known"])[0]
            else:
                res.count("unknown_overlay")
                continue
            res.count("overlays_judged")
            if d:
                bad("overlay", f"{k} {d}")
        if clean and x.cfg["N"] > 1:
            miss = [k for k in want if k not in alt]
            if miss:
                bad("overlay missing", f"{miss} not among {list(alt)}")
        self.meta(res, x, case, F, P, W, ret, bad, clean)

    def meta(self, res, x, case, F, P, W, ret, bad, clean):
        p, kind, M = case["p"], case["kind"], W.shape[1]
        if kind in ("variance", "cvar"):
            mean = P.mu if kind == "variance" else P.p @ P.R
            r = mean @ W
            if kind == "variance" and np.any(np.diff(r) < -3e-6 * max(1.0, float(np.max(np.abs(mean))))):
                bad("order", f"returns {r} not ascending")
            if F.metadata:
                res.count("unexpected_metadata")
            return
        md = F.metadata
        if md is None or len(md) != M:
            return bad("metadata", f"{md and len(md)} entries for {M} columns")
        if kind == "robust":
            lams = list(p["ls"]) if p["ls"] is not None else [p["ml"]] if p["n"] == 1 else [0.0] if p["ml"] == 0 else list(np.linspace(0, p["ml"], p["n"]))
            got = [m.get("lambda") for m in md]
            if len(got) != len(lams) or not np.allclose(sorted(got), sorted(lams), rtol=1e-12, atol=0):
                return bad("metadata", f"penalties {got} for {lams}")
            sd = float(np.sqrt(np.max(np.diag(P.unc))))
            f = np.array([[P.f_rob(W[:, j], l) for j in range(M)] for l in got])
            for i in range(M):
                tol = 2e-6 + 1e-5 * abs(f[i, i])
                if f[i, i] > f[i].min() + tol:
                    bad("metadata", f"column {i} labelled lambda={got[i]} scores {f[i, i]:.9g} on it, column {int(np.argmin(f[i]))} scores {f[i].min():.9g}; penalties {got}")
            return
        mult = list(p["tm"]) if p["tm"] is not None else [max(1.0, p["mm"])] if p["n"] == 1 else list(np.linspace(1.0, p["mm"], p["n"]))
        lam = [p["lam"]] * len(mult)
        if p["rp"]:
            mult, lam = [None] + mult, [0.0] + lam
        if len(md) != len(mult):
            return bad("metadata", f"{len(md)} entries for multipliers {mult}")
        base = None
        b = np.arange(1, x.cfg["N"] + 1, dtype=float)
        rp = oracle.RiskParity(P, b / b.sum() if p["bud"] else None)
        for i, m in enumerate(md):
            if (m["target_multiplier"] is None) != (mult[i] is None) or (mult[i] is not None and abs(m["target_multiplier"] - mult[i]) > 1e-12):
                bad("metadata", f"column {i} labelled {m['target_multiplier']}, requested order {mult}")
                return
            if m["lambda_reg"] != lam[i]:
                bad("metadata", f"column {i} lambda_reg {m['lambda_reg']}, solved with {lam[i]}")
            if mult[i] is None:
                base = float(ret[i])
                if m["requested_target"] is not None or m["effective_target"] is not None:
                    bad("metadata", f"anchor carries a target: {m}")
            elif m["requested_target"] is None:
                bad("metadata", f"column {i} has no requested target")
            elif base is not None and abs(m["requested_target"] - mult[i] * max(base, 0.0)) > 1e-9 * abs(base) + 1e-15:
                bad("metadata", f"column {i}: requested target {m['requested_target']} for multiplier {mult[i]} of {base}")
            if m["effective_target"] is None and mult[i] is not None and m["solver_warning"] is None:
                bad("metadata", f"column {i}: target dropped without a warning")
            if m["effective_target"] is not None:
                t = float(P.mu @ W[:, i])
                if t < m["effective_target"] - 3e-6 * max(1.0, float(np.max(np.abs(P.mu)))):
                    bad("metadata", f"column {i} returns {t}, labelled with effective target {m['effective_target']}")
            if abs(m["objective"] - (m["psi"] - m["gamma"])) > 1e-8 * abs(m["psi"]) + 1e-12:
                bad("metadata", f"column {i}: objective {m['objective']} is not psi - gamma ({m['psi']} - {m['gamma']})")
            v = rp.value(np.clip(W[:, i], 0, None), lam[i])
            if abs(m["objective"] - v) > 3e-6 + 1e-3 * float(np.sqrt(np.max(np.diag(P.S)))):
                bad("metadata", f"column {i}: objective {m['objective']}, its portfolio scores {v}")
        # with equal multipliers or not, requested targets are proportional to the multipliers
        k = [(m["requested_target"], t) for m, t in zip(md, mult) if t]
        if len(k) > 1:
            b0 = [q / t for q, t in k]
            if np.ptp(b0) > 1e-9 * max(abs(v) for v in b0):
                bad("metadata", f"requested targets {[q for q, _ in k]} not proportional to {[t for _, t in k]}")

    # -- one build under a simulator ------------------------------------------------------------
    def once(self, res, x, case, thunk, how, plan=None, crash=None):
        sim = sched.Sim(plan or {}, seam_budget=600)
        sim.record_lines = crash == "record"
        warnings.simplefilter("ignore")
        try:
            with sim:
                if crash is None:
                    sim.begin_op("frontier")
                    o = common.guarded(thunk)
                elif crash == "record":
                    o = sim.run_traced(lambda: (sim.begin_op("frontier"), common.guarded(thunk))[1])
                else:
                    o = sim.run_traced(lambda: (sim.begin_op("frontier"), common.guarded(thunk))[1], crash_at=crash[0], crash_exc=crash[1])
        except sched.SimBudget as e:
            res.take(sim)
            res.bad("unbounded", f"{how}: {e}")
            return None, sim
        res.take(sim)
        return o, sim

    def run(self, case):
        res = Result()
        r = rnd(case["seed"])
        if case["kind"] == "hand":
            F = self.hand(res, case, r)
            if F is not None:
                self.history(res, case, F, r, [f"A{i}" for i in range(case["p"]["N"])])
            return res.out()
        x = Ctx14(case["cfg"])
        kind = case["kind"]
        p = case["p"]
        try:
            thunk = self.build(x, case)
        except Exception:
            return res.out()
        res.op(kind + "_frontier")
        ctx = f"{kind} frontier params {p}"
        o, sim = self.once(res, x, case, thunk, ctx, crash="record" if case["crashes"] else None)
        if o is None:
            return res.out()
        res.sig(kind, o[0], sorted(o[1].alternate_risks) if o[0] == "ok" else type(o[1]).__name__)
        res.note(kind, "clean", o[0], o[1].weights.shape if o[0] == "ok" else type(o[1]).__name__)
        clean = None
        if o[0] == "ok":
            clean = o[1]
            self.judge(res, x, case, clean, ctx, True)
        elif not isinstance(o[1], (RuntimeError, ValueError, ArithmeticError)):
            res.bad("wrong error", f"{ctx}: {type(o[1]).__name__}: {o[1]}")
        ts = sim.serial_ts
        firsts, steps, seams = sorted(ts.first_lines.values()), ts.steps, list(ts.seam_list)
        hot = [s for s in sched.hot_steps(ts.first_lines) if s <= steps]
        for m in range(case["crashes"] if clean is not None else 0):
            late = [s for s in firsts if s > 0.75 * steps]
            u = r.random()
            at = r.choice(hot) if u < 0.35 and hot else r.choice(late) if u < 0.55 and late else r.randint(max(1, int(0.9 * steps)), steps) if u < 0.75 else r.choice(firsts)
            exc = r.choice(CRASH)
            o, s = self.once(res, x, case, thunk, ctx, crash=(at, exc))
            if o is None or not s.serial_ts.crashed:
                continue
            where = s.serial_ts.crashed
            how = f"{ctx} with {exc} at {where}"
            res.sig(kind, exc, where, o[0], sorted(o[1].alternate_risks) if o[0] == "ok" else "")
            res.note(exc, "at", where, "->", o[0] if o[0] == "ok" else type(o[1]).__name__)
            if o[0] == "ok":
                res.count("frontier_despite_error")
                self.compare(res, case, clean, o[1], how, strict=not (kind == "rrp" and exc == "RuntimeError") and ("portfolioapi.py" in where or "utils/" in where))
                self.judge(res, x, case, o[1], how, False)
        for m in range(case["plans"]):
            plan = common.keyed(common.plan_pick(r, seams, r.choice([1, 1, 2])), "frontier")
            o, s = self.once(res, x, case, thunk, ctx, plan=plan)
            if o is None:
                continue
            res.sig(kind, sorted(s.fired), o[0])
            res.note("plan", s.fired, "->", o[0] if o[0] == "ok" else type(o[1]).__name__)
            if o[0] == "ok" and s.fired:
                res.count("frontier_despite_fault")
                self.judge(res, x, case, o[1], f"{ctx} fired {s.fired}", False)
        if clean is not None:
            self.history(res, case, clean, r, list(x.names) if x.cfg["lab"] else None)
        return res.out()

    def compare(self, res, case, a, b, how, strict):
        """The frontier computed despite an error against the undisturbed one."""
        if not strict:
            return
        if a.weights.shape != b.weights.shape or not np.allclose(a.weights, b.weights, rtol=1e-9, atol=1e-12):
            return res.bad("frontier changed", f"{how}: weights {a.weights.tolist()} became {b.weights.tolist()}")
        for k in ("returns", "risks"):
            if not np.allclose(getattr(a, k), getattr(b, k), rtol=1e-9, atol=1e-15):
                res.bad("frontier changed", f"{how}: {k} {getattr(a, k)} became {getattr(b, k)}")
        if canon.diff(canon.canon(a.metadata), canon.canon(b.metadata)) or a.risk_measure != b.risk_measure or a.asset_names != b.asset_names:
            res.bad("frontier changed", f"{how}: {a.metadata} became {b.metadata}")
        extra = set(b.alternate_risks) - set(a.alternate_risks)
        if extra:
            res.bad("frontier changed", f"{how}: overlay {extra} appeared")
        rob_fallback = case["kind"] == "robust"
        for k, v in b.alternate_risks.items():
            if k in a.alternate_risks and not np.allclose(v, a.alternate_risks[k], rtol=1e-9, atol=1e-15) and not (rob_fallback and k == "Volatility"):
                res.bad("frontier changed", f"{how}: overlay {k} {a.alternate_risks[k]} became {v}")

    # -- hand-built frontiers -----------------------------------------------------------------------
    def hand(self, res, case, r):
        p = case["p"]
        g = np.random.default_rng(case["seed"])
        N, M = p["N"], p["M"]
        W = g.dirichlet(np.ones(N), size=M).T
        ret = g.normal(size=M) * 0.05
        risks = g.uniform(0.01, 0.3, M)
        if p["ties"]:
            risks, ret = np.round(risks, 1), np.round(ret, 1)
        if p["neg"]:
            risks = risks - 0.15
        if p["zero"]:
            risks[g.integers(M)] = 0.0
        alt = {f"R{j}": np.round(g.normal(size=M), 1 if p["ties"] else 9) for j in range(p["alt"])}
        names = None if p["names"] is None else [f"A{i}" for i in range(N)] if p["names"] == "str" else [10 + i for i in range(N)]
        meta = [{"i": i} for i in range(M)] if p["meta"] else None
        PF = boot.LIB.PortfolioFrontier
        arg = dict(weights=W, returns=ret, risks=risks, risk_measure="Vol", asset_names=names, metadata=meta, alternate_risks=alt)
        res.op("hand_frontier")
        broken = r.choice(["weights", "returns", "risks", "asset_names", "metadata", "alt", None, None])
        if broken:
            q = dict(arg)
            if broken == "weights":
                q["weights"] = np.hstack([W, W[:, :1]])
            elif broken in ("returns", "risks"):
                q[broken] = np.append(q[broken], 0.1)
            elif broken == "asset_names":
                q["asset_names"] = ["x"] * (N + 1)
            elif broken == "metadata":
                q["metadata"] = [{}] * (M + 1)
            else:
                q["alternate_risks"] = {"R": np.zeros(M + 1)}
            k, v = common.guarded(lambda: PF(**q))
            res.count("mismatch_constructed")
            if k == "ok" or not isinstance(v, ValueError):
                res.bad("mismatch accepted", f"frontier with mismatched {broken} -> {k} {type(v).__name__}")
        k, v = common.guarded(lambda: PF(**arg))
        if k != "ok":
            res.bad("construction", f"{type(v).__name__}: {v}")
            return None
        return v

    # -- selection histories -----------------------------------------------------------------------
    def history(self, res, case, F, r, names):
        A = {"W": np.array(F.weights), "returns": np.array(F.returns), "risks": np.array(F.risks), "measure": F.risk_measure,
             "alt": {k: np.array(v) for k, v in F.alternate_risks.items()}, "names": copy.copy(F.asset_names)}
        before = canon.snap(F)
        M = A["W"].shape[1]
        for s in range(case["sels"]):
            k = r.choice(["min_risk", "max_return", "tangency", "at_risk", "at_return", "closest_risk", "at_percentile", "at_percentile", "index",
                          "percentiles", "frame", "frame", "samples", "discrete"])
            label = r.choice([None, None, A["measure"]] + list(A["alt"]) + (["no such"] if r.random() < 0.2 else []))
            sel = {"k": k, "label": label}
            vec = risk_of(A, label)
            vec = A["risks"] if vec is None else vec
            if k in ("max_return", "tangency"):
                sel["label"] = None
            if k == "tangency":
                sel["a"] = r.choice([0.0, float(A["returns"].min()) - 0.01, float(np.mean(A["returns"])), 0.02, float("nan"), float(A["returns"].max()) + 1.0])
            elif k == "at_return":
                sel["a"] = gen_level(r, A["returns"])
            elif k in ("at_risk", "closest_risk"):
                sel["a"] = gen_level(r, vec)
            elif k in ("at_percentile", "index"):
                sel["a"] = r.choice([0, 1, 0.5, 100, 50.0, 33.3, 1.5, r.random(), r.random(), 100 * r.random(), -0.01, 100.5, float("nan"), float("inf")])
            if k == "percentiles":
                self.percentiles(res, A, F, sel)
            elif k in ("frame", "samples"):
                self.frames(res, A, F, sel, r)
            elif k == "discrete":
                self.discrete(res, A, F, r)
            else:
                self.select(res, A, F, sel, r)
            if k == "discrete" or r.random() < 0.5:
                continue
            d = canon.snap_diff(before, canon.snap(F), "frontier")
            if d:
                return res.bad("frontier altered", f"after {sel}: {d}")
        d = canon.snap_diff(before, canon.snap(F), "frontier")
        if d:
            res.bad("frontier altered", f"after the selections: {d}")

    def select(self, res, A, F, sel, r):
        k, kw = sel["k"], {} if sel["label"] is None else {"risk_label": sel["label"]}
        fn = {"min_risk": lambda: F.min_risk(**kw), "max_return": lambda: F.max_return(), "tangency": lambda: F.tangency(sel["a"]),
              "at_risk": lambda: F.at_risk(sel["a"], **kw), "at_return": lambda: F.at_return(sel["a"], **kw),
              "closest_risk": lambda: F.closest_risk(sel["a"], **kw), "at_percentile": lambda: F.at_percentile(sel["a"], **kw),
              "index": lambda: F.index_at_risk_percentile(sel["a"], **kw)}[k]
        o, v = common.guarded(fn)
        want = admissible(A, sel)
        res.op(k)
        res.sig(k, sel["label"] is None, o, want if isinstance(want, str) else "")
        if o == "exc":
            if not isinstance(want, str):
                if want is not None or not isinstance(v, (ValueError, RuntimeError)):
                    res.bad("selection refused", f"{sel}: {type(v).__name__}: {v}; risks {A['risks']}, returns {A['returns']}")
            elif want not in [c.__name__ for c in type(v).__mro__]:
                # two inputs may be wrong at once
                if not (isinstance(v, (KeyError, ValueError, RuntimeError)) and risk_of(A, sel["label"]) is None):
                    res.bad("wrong error", f"{sel}: {type(v).__name__}: {v} instead of {want}")
            return
        if isinstance(want, str):
            return res.bad("selection granted", f"{sel} should raise {want}, returned {v}")
        res.count("selections_judged")
        if k == "index":
            if int(v) not in want:
                res.bad("selection", f"{sel} -> column {v}, expected one of {sorted(want)}; risks {risk_of(A, sel['label'])}")
            return
        w, ret, risk = v
        if not isinstance(w, pd.Series) or list(w.index) != (A["names"] if A["names"] is not None else list(range(A["W"].shape[0]))):
            return res.bad("selection", f"{sel}: weights {w!r} not labelled by {A['names']}")
        risks = risk_of(A, sel["label"])
        hits = [j for j in range(A["W"].shape[1]) if np.array_equal(w.to_numpy(), A["W"][:, j]) and ret == A["returns"][j] and risk == risks[j]]
        if not hits:
            res.bad("selection", f"{sel}: weights {w.tolist()}, return {ret}, risk {risk} are not one column of the frontier; "
                    f"returns {A['returns']}, risks {risks}")
        elif want is not None and not set(hits) & want:
            res.bad("selection", f"{sel}: column {hits}, expected one of {sorted(want)}; returns {A['returns']}, risks {risks}")
        w.iloc[:] = 7.0

    def percentiles(self, res, A, F, sel):
        o, v = common.guarded(lambda: F.risk_percentiles(sel["label"]))
        risks = risk_of(A, sel["label"])
        res.op("risk_percentiles")
        if risks is None:
            if o == "ok":
                res.bad("selection granted", f"risk_percentiles({sel['label']!r}) -> {v}")
            return
        if o != "ok":
            return res.bad("selection refused", f"risk_percentiles: {type(v).__name__}: {v}")
        n = len(risks)
        v = np.array(v, float)
        if n == 1:
            ok = v.shape == (1,) and v[0] == 0.0
        else:
            ok = v.shape == (n,) and np.allclose(np.sort(v), np.arange(n) / (n - 1), atol=1e-12) and \
                np.all(np.diff(risks[np.argsort(v, kind="stable")]) >= 0)
        if not ok:
            res.bad("percentiles", f"{v} for risks {risks}")

    def frames(self, res, A, F, sel, r):
        N, M = A["W"].shape
        u = r.random()
        cols = None if u < 0.25 else [r.randrange(M) for _ in range(r.randint(1, 4))] if u < 0.9 else [0, M]
        form = r.choice(["list", "tuple", "gen", "array", "list"])
        mk = lambda: None if cols is None else {"list": list, "tuple": tuple, "array": np.array, "gen": lambda c: (j for j in c)}[form](cols)
        labels = None
        m = M if cols is None else len(cols)
        if sel["k"] == "frame":
            labels = r.choice([None, None, [f"p{j}" for j in range(m)], [f"p{j}" for j in range(m + 1)]])
            o, v = common.guarded(lambda: F.to_frame(mk(), column_labels=labels))
            frame = True
        else:
            frame = r.random() < 0.5
            o, v = common.guarded(lambda: F.to_samples(mk(), as_frame=frame))
        res.op("to_frame" if sel["k"] == "frame" else "to_samples")
        res.sig(sel["k"], form if cols is not None else "all", o)
        what = f"{sel['k']}({cols} as {form}, labels={labels}, frame={frame})"
        if cols is not None and M in cols:
            if o == "ok" or not isinstance(v, IndexError):
                res.bad("wrong error", f"{what}: {o} {type(v).__name__} for a frontier of {M}")
            return
        if labels is not None and len(labels) != m:
            if o == "ok" or not isinstance(v, ValueError):
                res.bad("wrong error", f"{what}: {o} {type(v).__name__}")
            return
        if o != "ok":
            return res.bad("selection refused", f"{what}: {type(v).__name__}: {v}")
        want = A["W"] if cols is None else A["W"][:, cols]
        res.count("selections_judged")
        if frame:
            exp = labels if labels is not None else list(range(m)) if cols is None else cols
            idx = A["names"] if A["names"] is not None else list(range(N))
            if not np.array_equal(v.to_numpy(), want) or list(v.columns) != list(exp) or list(v.index) != list(idx):
                return res.bad("selection", f"{what}: {v} for {want}")
            v.iloc[:, :] = 7.0
        else:
            mat, names = v
            if not np.array_equal(mat, want) or names != A["names"]:
                return res.bad("selection", f"{what}: {mat} {names} for {want} {A['names']}")
            mat[:] = 7.0
            if names:
                names[0] = "changed"

    def discrete(self, res, A, F, r):
        N, M = A["W"].shape
        j = r.choice([r.randrange(M), r.randrange(M), M - 1, M, -1])
        names = A["names"] if A["names"] is not None else [f"Asset_{i}" for i in range(N)]
        w = A["W"][:, j % M]
        if np.any(w < -1e-9):
            return
        prices = pd.Series([10.0 + 7 * i for i in range(N)], index=names)
        prices = prices.iloc[::-1] if r.random() < 0.3 else prices
        prices = dict(prices) if r.random() < 0.3 else prices
        o, v = common.guarded(lambda: F.as_discrete_allocation(j, prices, 5000.0))
        res.op("as_discrete_allocation")
        if not 0 <= j < M:
            if o == "ok" or not isinstance(v, IndexError):
                res.bad("wrong error", f"as_discrete_allocation({j}) of {M}: {o} {type(v).__name__}: {v}")
            return
        o2, v2 = common.guarded(lambda: boot.LIB.discrete_allocation.discretize_weights(pd.Series(w, index=names), prices, 5000.0, method="greedy"))
        d = common.same((o, canon.canon(v)), (o2, canon.canon(v2)))
        if d:
            res.bad("selection", f"as_discrete_allocation({j}) differs from the allocation of column {j}: {d}")


CHECK = C14()
