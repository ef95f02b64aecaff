"""C11: the normal-inverse-Wishart updater's lifecycle, its textbook answers, and its state after failures."""
import copy
import warnings

import numpy as np

from .. import boot, common, sched, world
from ..common import Check, Result, rnd

GET = ["get_mu_ce", "get_S_mu", "get_sigma_ce", "cred_radius_mu", "cred_radius_sigma_factor", "is_updated"]
BAD_UPDATE = ["short_mu", "mat_mu", "rect_sigma", "zero_obs", "neg_obs", "nan_sigma", "nan_mu", "inf_obs", "nan_obs", "indef", "text", "none", "labels_mu",
              "labels_sigma", "cols_sigma", "scalar"]
BAD_PRIOR = ["short_mu", "rect", "t0", "nu0", "indef", "nan", "labels", "empty", "mat_mu"]


class Ref:
    """Textbook posterior (Meucci 2005, Eqs. 11-14 and the classical equivalents)."""

    def __init__(self, m0, S0, t0, nu0):
        self.m0, self.S0, self.t0, self.nu0, self.N = m0.copy(), S0.copy(), t0, nu0, len(m0)
        self.done = False

    def update(self, m, S, n):
        self.T1, self.nu1 = self.t0 + n, self.nu0 + n
        self.mu1 = self.m0 * (self.t0 / self.T1) + m * (n / self.T1)
        d = self.m0 - m
        self.S1 = (self.nu0 * self.S0 + n * S + np.outer(d, d) * (n * self.t0 / (n + self.t0))) / self.nu1
        self.done = True

    def ask(self, q, p=None):
        from scipy.stats import chi2
        if q == "is_updated":
            return self.done
        if not self.done:
            return RuntimeError
        N, T1, nu1 = self.N, self.T1, self.nu1
        if q == "get_mu_ce":
            return self.mu1
        if q == "get_sigma_ce":
            return self.S1 * (nu1 / (nu1 + N + 1))
        if q == "get_S_mu":
            return ValueError if nu1 <= 2 else self.S1 * (nu1 / (T1 * (nu1 - 2)))
        if not 0 < p < 1:
            return ValueError
        if q == "cred_radius_mu":
            return ValueError if nu1 <= 2 else np.sqrt(chi2.ppf(p, N) / T1 * nu1 / (nu1 - 2))
        z = chi2.ppf(p, N * (N + 1) // 2)
        return nu1 / (nu1 + N + 1) + np.sqrt(2 * nu1 ** 2 * z / (nu1 + N + 1) ** 3)


def spd(r, n, scale):
    A = r.normal(size=(n, n + 2))
    return scale * (A @ A.T / n + 0.05 * np.eye(n))


class C11(Check):
    id = "C11"
    n_quick = 3500
    n_thorough = 60000
    rule = ("one case = one history of constructing, updating (valid and invalid arguments, failing or interrupted factorisations), asking, "
            "and modifying what was passed in or returned, against a reference state machine; non-trivial when a fault fired or an invalid "
            "update was made; distinct by the sequence of steps and outcomes")
    sig_measure = "sequence of (step, outcome) of the history"

    def gen(self, rng, i, tier):
        n = rng.choice([1, 2, 3, 4])
        steps = []
        for _ in range(rng.choice([4, 8, 14, 20])):
            k = rng.choice(["ask", "ask", "ask", "bad", "bad", "fault", "crash", "good", "scribble_in", "scribble_out", "askbad", "again"])
            s = {"k": k, "seed": rng.randrange(1 << 30)}
            if k in ("ask", "askbad"):
                s["q"] = rng.choice(GET)
                s["p"] = rng.choice([0.5, 0.75, 0.9, 0.01, 0.999]) if k == "ask" else rng.choice([0.0, 1.0, -0.2, 1.5, float("nan")])
            elif k == "bad":
                s["how"] = rng.choice(BAD_UPDATE)
            elif k == "fault":
                s["fails"] = rng.choice([1, 2, 3, 6, 7, 8, 20])
                s["exc"] = rng.choice(["LinAlgError", "LinAlgError", "LinAlgError", "MemoryError", "KeyboardInterrupt"])
                s["at"] = rng.choice([0, 1])
            elif k == "crash":
                s["at"] = rng.random()
                s["exc"] = rng.choice(["KeyboardInterrupt", "MemoryError"])
            steps.append(s)
        return {"n": n, "seed": rng.randrange(1 << 30), "lab": rng.choice(["none", "none", "both", "sigma", "mu"]), "t0": rng.choice([1, 3, 7, 200]),
                "nu0": rng.choice([0, 1, 5, 30, 500]), "obs": rng.choice([1, 1, 2, 20, 500]), "scale": rng.choice([1.0, 1e-2, 1e-4]),
                "fmt": rng.choice(["c", "f", "ro", "list"]), "slab": rng.choice([True, False]), "steps": steps, "tail": rng.choice(["rbp", "moments", "none", "badprior", "rbpbad"]),
                "how": rng.choice(BAD_PRIOR), "af": rng.choice([1.0, 12.0, 252.0]), "p": rng.choice([0.5, 0.75, 0.95])}

    def shrink(self, case):
        for i in range(len(case["steps"])):
            c = copy.deepcopy(case)
            del c["steps"][i]
            yield c
        for k, v in (("lab", "none"), ("fmt", "c"), ("tail", "none"), ("n", 1), ("n", 2), ("scale", 1.0), ("obs", 20)):
            if case[k] != v and not (k == "n" and case["n"] < v):
                c = copy.deepcopy(case)
                c[k] = v
                yield c

    # -- inputs -------------------------------------------------------------------------
    def dress(self, c, v, lab):
        import pandas as pd
        names = [f"X{i}" for i in range(c["n"])]
        v = np.array(v, float)
        if lab:
            return pd.Series(v, index=names) if v.ndim == 1 else pd.DataFrame(v, index=names, columns=names)
        if c["fmt"] == "list":
            return v.tolist()
        v = np.array(v, order="F" if c["fmt"] == "f" else "C")
        if c["fmt"] == "ro":
            v.flags.writeable = False
        return v

    def run(self, case):
        res = Result()
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            self.history(case, res)
            if case["tail"] != "none":
                self.tail(case, res)
        return res.out()

    def sim(self, res, plan, fn, crash=None):
        sim = sched.Sim(common.keyed(plan, "a"), seam_budget=400)
        with sim:
            sim.begin_op("a")
            if crash is None:
                o = common.guarded(fn)
            else:
                o = sim.run_traced(lambda: common.guarded(fn), **crash)
        res.take(sim)
        return o[0], o[1], sim

    def same_state(self, res, obj, ref, ctx, rng, order=None):
        """Every question, in a random order, twice."""
        qs = GET * 2
        rng.shuffle(qs)
        for q in qs:
            self.ask(res, obj, ref, q, rng.choice([0.3, 0.75, 0.95]), ctx)

    def ask(self, res, obj, ref, q, p, ctx, keep=None):
        want = ref.ask(q, p)
        args = [p] if q.startswith("cred") else []
        kind, v = common.guarded(lambda: obj.is_updated if q == "is_updated" else getattr(obj, q)(*args))
        ctx = f"{q}({p if args else ''}) {ctx}"
        if isinstance(want, type):
            if kind == "ok":
                res.bad("answered before update" if want is RuntimeError else "invalid question answered", f"{ctx}: {v!r:.150}")
            elif not isinstance(v, want):
                res.bad("wrong error", f"{ctx}: {type(v).__name__}: {v}")
            return None
        if kind == "exc":
            res.bad("valid question refused", f"{ctx}: {type(v).__name__}: {v}")
            return None
        if q == "is_updated":
            if bool(v) != want:
                res.bad("is_updated wrong", f"{ctx}: {v}")
            return None
        got = np.asarray(v, float)
        if got.shape != np.shape(want) or not np.allclose(got, want, rtol=1e-9, atol=1e-13 * max(1e-12, np.abs(want).max() if np.ndim(want) else 1)):
            res.bad("not the textbook posterior", f"{ctx}: {got.tolist()} instead of {np.asarray(want).tolist()}")
        if np.ndim(want) and self.labelled:
            idx = getattr(v, "index", None)
            if idx is None or list(idx) != self.names or (np.ndim(want) == 2 and list(v.columns) != self.names):
                res.bad("labels lost", f"{ctx}: {idx}")
        elif np.ndim(want) and hasattr(v, "index"):
            res.bad("labels lost", f"{ctx}: labels appeared from nowhere")
        res.count("answers_judged")
        return v

    # -- the history ----------------------------------------------------------------------
    def history(self, case, res):
        L = boot.LIB
        n = case["n"]
        r = np.random.Generator(np.random.PCG64(case["seed"]))
        self.names = [f"X{i}" for i in range(n)]
        self.labelled = case["lab"] != "none"
        m0, S0 = 0.1 * r.normal(size=n), spd(r, n, case["scale"])
        m, S, obs = 0.1 * r.normal(size=n), spd(r, n, case["scale"]), case["obs"]
        a_m0 = self.dress(case, m0, case["lab"] in ("both", "mu"))
        a_S0 = self.dress(case, S0, case["lab"] in ("both", "sigma"))
        if case["lab"] == "mu" and case["nu0"] == 0:
            pass
        kind, obj, sim = self.sim(res, {}, lambda: L.bayesian.NIWPosterior(a_m0, a_S0, case["t0"], case["nu0"]))
        if kind != "ok":
            res.bad("valid prior refused", f"{case['lab']} {case['fmt']}: {type(obj).__name__}: {obj}")
            return
        ref = Ref(m0, S0, case["t0"], case["nu0"])
        base = f"[n={n} t0={case['t0']} nu0={case['nu0']} obs={obs} lab={case['lab']} fmt={case['fmt']}]"
        hist = []
        answers = []
        rng = rnd(case["seed"])

        def valid_args():
            lab = self.labelled and case["slab"]
            return self.dress(case, m, lab), self.dress(case, S, lab), obs

        def after(ctx):
            self.same_state(res, obj, ref, ctx, rng)
            if not np.array_equal(np.asarray(obj.prior_mu, float), m0) or not np.array_equal(np.asarray(obj.prior_sigma, float), S0) or (obj.t0, obj.nu0, obj.N) != (case["t0"], case["nu0"], n):
                res.bad("prior changed", ctx)

        for s in case["steps"]:
            k = s["k"]
            ctx = f"after {hist[-6:]} {base}"
            out = ""
            if k in ("ask", "askbad"):
                v = self.ask(res, obj, ref, s["q"], s["p"], ctx)
                if v is not None and np.ndim(v):
                    answers.append(v)
            elif k == "scribble_out":
                for v in answers:
                    arr = v.to_numpy() if hasattr(v, "to_numpy") else v
                    if hasattr(v, "iloc"):
                        v.iloc[0] = 9.9
                    elif isinstance(arr, np.ndarray) and arr.flags.writeable:
                        arr *= 252.0
                out = len(answers)
                answers = []
                hist.append((k, out))
                after(f"after {hist[-6:]} {base}")
            elif k == "scribble_in":
                for v in (a_m0, a_S0):
                    if isinstance(v, np.ndarray) and v.flags.writeable:
                        v += 1.0
                    elif hasattr(v, "iloc"):
                        v.iloc[0] = 3.0
                    elif isinstance(v, list):
                        v[0] = 5.0 if v and not isinstance(v[0], list) else [5.0] * n
                hist.append((k,))
                after(f"after {hist[-6:]} {base}")
            elif k == "bad":
                res.nontrivial = True
                args = self.bad_args(s["how"], case, m, S, obs)
                if args is None:
                    continue
                kind, v, sim = self.sim(res, {}, lambda: obj.update(*args))
                out = kind if kind == "ok" else type(v).__name__
                hist.append((k, s["how"], out))
                if kind == "ok":
                    res.bad("invalid update accepted" if not ref.done else "second update accepted", f"{s['how']} {ctx}: {v!r:.200}")
                    return
                if ref.done and not isinstance(v, RuntimeError):
                    res.bad("wrong error", f"second update ({s['how']}) {ctx}: {v!r:.150}")
                after(f"after {hist[-6:]} {base}")
            else:
                args = valid_args()
                if k == "fault":
                    plan = {("linalg", s["at"] + q): {"act": "raise", "exc": s["exc"]} for q in range(s["fails"])}
                    kind, v, sim = self.sim(res, plan, lambda: obj.update(*args))
                elif k == "crash":
                    # a dry run on a throw-away twin tells how many lines the update has
                    twin = L.bayesian.NIWPosterior(m0.copy(), S0.copy(), case["t0"], case["nu0"])
                    _, _, probe = self.sim(Result(), {}, lambda: twin.update(*args), crash={})
                    at = 1 + int(s["at"] * max(1, probe.serial_ts.steps))
                    kind, v, sim = self.sim(res, {}, lambda: obj.update(*args), crash={"crash_at": at, "crash_exc": s["exc"]})
                    if sim.serial_ts.crashed:
                        res.fault("line/" + s["exc"])
                        if kind == "ok" and s["exc"] == "KeyboardInterrupt":
                            res.bad("failure hidden", f"interrupt at {sim.serial_ts.crashed} {ctx}")
                else:
                    kind, v, sim = self.sim(res, {}, lambda: obj.update(*args))
                out = kind if kind == "ok" else type(v).__name__
                hist.append((k, out))
                ctx = f"after {hist[-6:]} {base}"
                if ref.done:
                    if kind == "ok":
                        res.bad("second update accepted", f"{ctx}: {v!r:.100}")
                    elif not isinstance(v, RuntimeError) and k in ("good", "again"):
                        res.bad("wrong error", f"second update {ctx}: {v!r:.100}")
                elif kind == "ok":
                    ref.update(m, S, obs)
                    if (v.T1, v.nu1) != (ref.T1, ref.nu1) or not np.allclose(np.asarray(v.mu1, float), ref.mu1, rtol=1e-9, atol=1e-14) or not np.allclose(
                            np.asarray(v.sigma1, float), ref.S1, rtol=1e-9, atol=1e-16):
                        res.bad("not the textbook posterior", f"update returned {v} {ctx}")
                    answers += [v.mu1, v.sigma1]
                elif k in ("good", "again"):
                    res.bad("valid update refused", f"{ctx}: {type(v).__name__}: {v}")
                elif k == "fault" and not sim.fired:
                    res.bad("valid update refused", f"{ctx}: {type(v).__name__}: {v}")
                elif k == "crash" and obj.is_updated:
                    # interrupted after the state change: allowed if the state is then the complete posterior
                    ref.update(m, S, obs)
                    res.count("interrupted_after_commit")
                if k == "fault" and kind == "ok" and sim.fired and s["exc"] != "LinAlgError":
                    res.bad("failure hidden", f"{s['exc']} {ctx}")
                after(ctx)
            res.note(k, s.get("how", s.get("q", "")), out)
            res.sig(k, s.get("how", s.get("q", "")), out)
        if not ref.done:
            args = valid_args()
            kind, v, sim = self.sim(res, {}, lambda: obj.update(*args))
            if kind != "ok":
                res.bad("valid update refused", f"finally, after {hist[-6:]} {base}: {type(v).__name__}: {v}")
                return
            ref.update(m, S, obs)
            after(f"finally, after {hist[-6:]} {base}")

    def bad_args(self, how, case, m, S, obs):
        import pandas as pd
        n = case["n"]
        lab = self.labelled and case["slab"]
        m, S = m.copy(), S.copy()
        if how == "short_mu":
            return np.r_[m, 0.0], S, obs
        if how == "mat_mu":
            return m.reshape(-1, 1), S, obs
        if how == "scalar":
            return 0.1, S, obs
        if how == "rect_sigma":
            return m, np.vstack([S, S[:1]]), obs
        if how == "zero_obs":
            return m, S, 0
        if how == "neg_obs":
            return m, S, -5
        if how == "inf_obs":
            return m, S, float("inf")
        if how == "nan_obs":
            return m, S, float("nan")
        if how == "nan_sigma":
            S[-1, -1] = np.nan
            return m, S, obs
        if how == "nan_mu":
            m[-1] = np.nan
            return m, S, obs
        if how == "indef":
            return m, -10.0 * S, obs
        if how == "text":
            return "abc", S, obs
        if how == "none":
            return m, None, obs
        if not self.labelled or n < 2:
            return None
        rev = self.names[::-1]
        if how == "labels_mu":
            return pd.Series(m, index=rev), S, obs
        if how == "labels_sigma":
            return m, pd.DataFrame(S, index=rev, columns=rev), obs
        return m, pd.DataFrame(S, index=self.names, columns=rev), obs

    # -- adapters --------------------------------------------------------------------------
    def tail(self, case, res):
        import pandas as pd
        L = boot.LIB
        n = case["n"]
        r = np.random.Generator(np.random.PCG64(case["seed"] + 1))
        m0, S0, m, S = 0.1 * r.normal(size=n), spd(r, n, case["scale"]), 0.1 * r.normal(size=n), spd(r, n, case["scale"])
        lab = case["lab"] != "none"
        self.labelled = lab
        t0, nu0, obs = case["t0"], case["nu0"], case["obs"]
        ref = Ref(m0, S0, t0, nu0)
        ref.update(m, S, obs)
        kw = dict(prior_mu=self.dress(case, m0, lab), prior_sigma=self.dress(case, S0, lab), t0=t0, nu0=nu0,
                  sample_mu=self.dress(case, m, lab), sample_sigma=self.dress(case, S, lab), n_obs=obs)
        ctx = f"{case['tail']} [n={n} t0={t0} nu0={nu0} obs={obs} lab={lab}]"
        res.sig(case["tail"], ref.nu1 <= 2)
        if case["tail"] == "badprior":
            how = case["how"]
            bad = {"short_mu": dict(prior_mu=np.r_[m0, 0.0]), "rect": dict(prior_sigma=np.vstack([S0, S0[:1]])), "t0": dict(t0=0), "nu0": dict(nu0=-1),
                   "indef": dict(prior_sigma=-10 * S0), "nan": dict(prior_sigma=np.where(np.eye(n) > 0, np.nan, S0)), "empty": dict(prior_mu=[], prior_sigma=np.zeros((0, 0))),
                   "mat_mu": dict(prior_mu=m0.reshape(-1, 1)),
                   "labels": dict(prior_mu=pd.Series(m0, index=[f"X{i}" for i in range(n)]), prior_sigma=pd.DataFrame(S0, index=[f"Y{i}" for i in range(n)], columns=[f"Y{i}" for i in range(n)]))}[how]
            a = {k: kw[k] for k in ("prior_mu", "prior_sigma", "t0", "nu0")}
            kind, v, sim = self.sim(res, {}, lambda: L.bayesian.NIWPosterior(**{**a, **bad}))
            if kind == "ok":
                res.bad("invalid prior accepted", f"{how} {ctx}")
            elif not isinstance(v, (ValueError, RuntimeError)):
                res.bad("wrong error", f"prior {how} {ctx}: {v!r:.100}")
            return
        plan, exc = {}, "LinAlgError"
        rng = rnd(case["seed"])
        if case["tail"] == "rbpbad":
            exc = rng.choice(["LinAlgError", "LinAlgError", "MemoryError"])
            at = rng.choice([0, 1, 2])
            plan = {("linalg", at + q): {"act": "raise", "exc": exc} for q in range(rng.choice([1, 2, 7, 20]))}
        near = lambda a, b: np.shape(a) == np.shape(b) and np.allclose(np.asarray(a, float), b, rtol=1e-9, atol=1e-14 * max(1e-9, np.abs(b).max()))
        if case["tail"] == "moments":
            for fn, want in ((L.posterior_moments_niw, ["get_mu_ce", "get_sigma_ce"]), (L.posterior_moments_niw_with_uncertainty, ["get_mu_ce", "get_sigma_ce", "get_S_mu"])):
                kind, v, sim = self.sim(res, {}, lambda: fn(**kw))
                ask = [ref.ask(q) for q in want]
                if any(isinstance(a, type) for a in ask):
                    if kind == "ok":
                        res.bad("invalid question answered", f"{fn.__name__} {ctx}")
                elif kind == "exc":
                    res.bad("valid update refused", f"{fn.__name__} {ctx}: {v!r:.150}")
                else:
                    for q, a, b in zip(want, v, ask):
                        if not near(a, b):
                            res.bad("not the textbook posterior", f"{fn.__name__} {q} {ctx}: {np.asarray(a).tolist()} instead of {b.tolist()}")
                        if lab and list(a.index) != [f"X{i}" for i in range(n)]:
                            res.bad("labels lost", f"{fn.__name__} {q}")
            return
        kind, v, sim = self.sim(res, plan, lambda: L.bayesian.RobustBayesPosterior.from_niw(**kw))
        if ref.nu1 <= 2:
            if kind == "ok":
                res.bad("invalid question answered", f"from_niw {ctx}")
            return
        if kind == "exc":
            if not sim.fired:
                res.bad("valid update refused", f"from_niw {ctx}: {v!r:.150}")
            return
        if sim.fired and exc == "MemoryError":
            res.bad("failure hidden", f"from_niw {ctx}")
        af = case["af"]
        mu, sg, sm = ref.ask("get_mu_ce"), ref.ask("get_sigma_ce"), ref.ask("get_S_mu")
        e1, e2 = np.exp(mu * af), np.exp(mu * af + 0.5 * np.diag(sg) * af * af)
        for name, got, want in (("mu", v.mu, mu), ("sigma", v.sigma, sg), ("s_mu", v.s_mu, sm), ("sigma1", v.sigma1, ref.S1),
                                ("cred_radius_mu", v.cred_radius_mu(case["p"]), ref.ask("cred_radius_mu", case["p"])),
                                ("cred_radius_sigma_factor", v.cred_radius_sigma_factor(case["p"]), ref.ask("cred_radius_sigma_factor", case["p"])),
                                ("mean_uncertainty_cov_log", v.mean_uncertainty_cov_log(annualization_factor=af), sm * af * af),
                                ("mean_uncertainty_cov_simple", v.mean_uncertainty_cov_simple(annualization_factor=af), sm * af * af * np.outer(e1, e1)),
                                ("mean_uncertainty_cov_simple exact", v.mean_uncertainty_cov_simple(annualization_factor=af, exact=True), sm * af * af * np.outer(e2, e2))):
            res.count("answers_judged")
            if not near(got, want):
                res.bad("not the textbook posterior", f"{name} {ctx}: {np.asarray(got).tolist()} instead of {np.asarray(want).tolist()}")
            if lab and np.ndim(want) and list(got.index) != [f"X{i}" for i in range(n)]:
                res.bad("labels lost", f"{name} {ctx}")
        for p in (0.0, 1.0, -1.0):
            for f in (v.cred_radius_mu, v.cred_radius_sigma_factor):
                k2, v2 = common.guarded(lambda: f(p))
                if k2 == "ok" or not isinstance(v2, ValueError):
                    res.bad("invalid question answered", f"{f.__name__}({p}): {v2!r:.80}")


CHECK = C11()
