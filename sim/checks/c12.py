"""C12: user callbacks -- how often, with what, in which order, and what becomes of their results and failures."""
import copy
import warnings

import numpy as np

from .. import boot, common, sched, seams
from ..common import Check, Result, rnd

KINDS = ["project", "project", "paths", "paths", "compose", "compose", "made", "report", "drawdown", "transform", "stinv", "stinv", "frominv", "sampler", "spec", "spec"]
HOWS = ["ok", "ok", "raise", "raise", "inplace", "scribble", "reuse", "short", "long", "len1", "scalar", "none", "wide", "empty", "frame", "list", "ints", "nan", "alien"]
EXCS = ["ValueError", "TypeError", "KeyError", "RuntimeError", "StopIteration", "AttributeError", "IndexError", "LinAlgError", "FloatingPointError", "ZeroDivisionError",
        "MemoryError", "KeyboardInterrupt", "NotImplementedError", "OSError"]
SHAPES = {"short", "long", "len1", "scalar", "none", "wide", "empty"}
UNIT = 2.0 ** -16


class Stop(Exception):
    """A caller's own exception class."""


class Driver:
    """The user's functions: computes, records, and misbehaves where planned."""

    def __init__(self, plan):
        self.plan = plan           # {(name, call number): how}
        self.calls = []            # (name, copies of arguments, kept arguments, copy of result)
        self.count = {}
        self.raised = None
        self.after = 0             # calls made after the failing one
        self.buffers = {}
        self.fired = set()
        self.kept = []

    def reset(self, plan):
        self.plan, self.calls, self.raised, self.after, self.fired = plan, [], None, 0, set()
        self.count = {"price": 1}      # pricing at the current level happened when the repricer was built

    def fn(self, name, f):
        def user(*args, **kw):
            n = self.count.get(name, 0)
            self.count[name] = n + 1
            if self.raised is not None:
                self.after += 1
            got = tuple(np.array(a, dtype=float) if isinstance(a, np.ndarray) else (a.copy() if hasattr(a, "iloc") else a) for a in args)
            how, extra = self.plan.get((name, n)) or self.plan.get((name, "*")) or ("ok", None)
            rec = [name, got, args, None, kw]
            self.calls.append(rec)
            if seams.ACTIVE is not None:
                try:
                    seams.ACTIVE.callback(name)
                except BaseException as e:
                    self.raised = e
                    raise
            if how == "raise":
                self.fired.add("raise")
                self.raised = Stop("mine") if extra == "Stop" else common.faults.injected(extra, "user " + name)
                raise self.raised
            out = self.bend(how, f, args, kw, rec)
            rec[3] = self.snap(out)
            return out
        user.__name__ = "user_" + name
        return user

    @staticmethod
    def snap(out):
        if isinstance(out, np.ndarray):
            return out.copy()
        return copy.deepcopy(out)

    def bend(self, how, f, args, kw, rec):
        a = args[0] if args else None
        arr = isinstance(a, np.ndarray)
        if how == "inplace" and arr and a.dtype.kind == "f":
            v = np.asarray(f(*args, **kw))
            if v.shape == a.shape:
                a[...] = v
                self.fired.add(how)
                return a
            return v
        if how == "inplace" and hasattr(a, "iloc"):
            v = f(*args, **kw)
            a.iloc[...] = -7.5
            self.fired.add(how)
            return v
        v = f(*args, **kw)
        if how == "ok":
            return v
        if how == "scribble":
            for x in args:
                if isinstance(x, np.ndarray) and x.flags.writeable and x.dtype.kind == "f" and v is not x:
                    v = np.array(v) if isinstance(v, np.ndarray) else v
                    x[...] = 1e9
                    self.fired.add(how)
                elif hasattr(x, "iloc") and v is not x:
                    v = v.copy() if hasattr(v, "iloc") else v
                    x.iloc[...] = 1e9
                    self.fired.add(how)
            return v
        if not isinstance(v, np.ndarray) or v.ndim == 0:
            if how == "none":
                self.fired.add(how)
                return None
            return v
        self.fired.add(how)
        if how == "reuse":
            b = self.buffers.setdefault(v.shape, np.empty(v.shape))
            b[...] = v
            return b
        if how == "short":
            return v[:-1]
        if how == "long":
            return np.concatenate([v, v[-1:]])
        if how == "len1":
            return v[:1]
        if how == "scalar":
            return 0.25
        if how == "none":
            return None
        if how == "wide":
            return np.column_stack([v, v])
        if how == "empty":
            return v[:0]
        if how == "list":
            return v.tolist()
        if how == "ints":
            return np.round(v).astype(int)
        if how == "nan":
            w = v.copy()
            w.flat[0] = np.nan
            return w
        if how in ("frame", "alien"):
            import pandas as pd
            ix = range(len(v)) if how == "frame" else range(100, 100 + len(v))
            return pd.DataFrame(v, index=ix) if v.ndim == 2 else pd.Series(v, index=ix)
        return v


class C12(Check):
    id = "C12"
    n_quick = 4000
    n_thorough = 80000
    rule = ("one case = one callback-taking operation (projection, paths, composed and full repricing, horizon and drawdown reports, stress, view "
            "sampling, ensemble builders) on decodable data, run with one or more misbehaving calls (raising, working in place, keeping or "
            "overwriting what it was given, reusing its buffer, returning another shape or type), then again well-behaved on the same objects; "
            "non-trivial when a misbehaviour took place; distinct by operation, misbehaviours and outcome")
    sig_measure = "operation x misbehaviours x outcome"

    def gen(self, rng, i, tier):
        kind = rng.choice(KINDS)
        h = rng.choice([1, 2, 3, 5])
        T = {1: rng.choice([1, 4, 10]), 2: rng.choice([2, 5, 9]), 3: rng.choice([3, 7]), 5: rng.choice([2, 6])}[h]
        rep = {"compose": "comp", "made": "made"}.get(kind) or rng.choice(["full", "made", "comp", "comp"])
        names = self.callbacks(kind, rep)
        plan = []
        for _ in range(rng.choice([1, 1, 1, 2])):
            how = rng.choice(HOWS)
            at = "*" if how != "raise" and rng.random() < 0.3 else rng.choice([0, 0, 0, 1, 1, 2, 4])
            if rep == "made" and how in ("frame", "alien"):
                at = 1                 # tables for the current level align by label: no promise to check
            plan.append([rng.choice(names), at, how, rng.choice(EXCS + ["Stop"])])
        excs = EXCS + ["Stop"]
        raises = [[rng.choice(names), rng.choice([0, 0, 1, 1, 2, 4]), x] for x in rng.sample(excs, 4)]
        return {"kind": kind, "raises": raises, "h": h, "T": T, "K": rng.choice([1, 2, 3]), "n": rng.choice([1, 1, 2, 8, 30, 30, 3000]), "seed": rng.randrange(1 << 30),
                "p": rng.choice(["none", "none", "zero", "rand", "unnorm"]), "form": rng.choice(["nd", "df", "nd", "df", "one", "series", "int", "f"]),
                "rep": rep, "nested": rng.random() < 0.3, "opt": rng.randrange(1 << 30), "plan": plan}

    @staticmethod
    def callbacks(kind, rep):
        if kind in ("transform",):
            return ["transform"]
        if kind == "sampler":
            return ["sampler"]
        if kind == "spec":
            return ["preprocess", "moments", "optimiser", "selector", "factory"]
        return {"full": ["full"], "made": ["price"], "comp": ["all", "i0", "i1", "i2"]}[rep]

    def shrink(self, case):
        for i in range(len(case["plan"])):
            c = copy.deepcopy(case)
            del c["plan"][i]
            yield c
        for i in range(len(case["raises"])):
            c = copy.deepcopy(case)
            del c["raises"][i]
            yield c
        for k, v in (("K", 1), ("n", 2), ("p", "none"), ("form", "nd"), ("h", 1), ("nested", False), ("T", 2)):
            if case[k] != v and not (k == "h" and case["T"] > 6):
                yield dict(copy.deepcopy(case), **{k: v})

    # -- data ---------------------------------------------------------------------
    def data(self, c):
        """Rows whose sums tell which rows were drawn."""
        import pandas as pd
        r = np.random.Generator(np.random.PCG64(c["seed"]))
        B, T, K = c["h"] + 1, c["T"], c["K"]
        form = c["form"]
        if form in ("one", "series"):
            K = 1
        R = np.empty((T, K))
        R[:, 0] = [float(B) ** t for t in range(T)]
        if form != "int":
            R[:, 0] *= UNIT
        R[:, 1:] = r.integers(-400, 400, size=(T, K - 1)) / (1.0 if form == "int" else 4096.0)
        p = None
        if c["p"] != "none":
            p = r.random(T) + 0.2
            if c["p"] == "zero" and T > 1:
                p[r.integers(T)] = 0.0
            if c["p"] != "unnorm":
                p = p / p.sum()
        names = ["drv%d" % j for j in range(K)]
        given = R.copy()
        if form == "df":
            given = pd.DataFrame(R.copy(), columns=names, index=pd.date_range("2020-01-01", periods=T))
        elif form == "series":
            given = pd.Series(R[:, 0].copy(), name="drv0", index=range(5, 5 + T))
        elif form == "one":
            given = R[:, 0].copy()
        elif form == "int":
            given = R.astype(int)
        elif form == "f":
            given = np.asfortranarray(R.copy())
        return R, p, names, given

    def decode(self, res, c, ctx, sums, R, p, h):
        """Is `sums` (n, K) made of sums of exactly h rows of R with positive probability?"""
        unit = 1.0 if c["form"] == "int" else UNIT
        B = c["h"] + 1
        sums = np.asarray(sums, float)
        if sums.ndim == 1:
            sums = sums.reshape(-1, 1)
        if sums.shape[1] != R.shape[1]:
            res.bad("wrong slice", f"{ctx}: callback got {sums.shape[1]} driver columns, data has {R.shape[1]}")
            return None
        k = np.round(sums[:, 0] / unit)
        counts = np.zeros((len(k), len(R)))
        x = k.copy()
        for t in range(len(R)):
            counts[:, t] = np.mod(x, B)
            x = np.floor_divide(x, B)
        if np.any(x != 0) or np.any(counts.sum(axis=1) != h) or not np.allclose(counts @ R, sums, rtol=0, atol=1e-9 * (1 + np.abs(sums).max())):
            res.bad("not a draw of horizon rows", f"{ctx}: callback input is not a sum of {h} rows of the invariants")
            return None
        if isinstance(p, str):
            return counts
        if p is not None and np.any(counts[:, np.asarray(p) == 0] > 0):
            res.bad("impossible row drawn", f"{ctx}: a scenario of zero probability was drawn")
        m = counts.sum()
        if m >= 2000:                  # frequencies, eight standard deviations
            q = np.full(len(R), 1.0 / len(R)) if p is None else np.asarray(p) / np.sum(p)
            if np.any(np.abs(counts.sum(axis=0) / m - q) > 8 * np.sqrt(q * (1 - q) / m) + 1e-3):
                res.bad("drawn with other probabilities", f"{ctx}: row frequencies {np.round(counts.sum(axis=0) / m, 3)}, probabilities {np.round(q, 3)}")
        return counts

    # -- user functions --------------------------------------------------------------
    def build(self, c, d, R, names, given):
        """(reprice argument, list of expected calls per combined call, number of outputs)."""
        import pandas as pd
        L, K = boot.LIB, R.shape[1]
        r = rnd(c["opt"], "fn")
        co = np.arange(1, K + 1) * 0.5
        full = d.fn("full", lambda x: x * (co if np.ndim(x) == 2 else co[0]) + 0.125 * x * x)
        if c["rep"] == "full":
            return full, ["full"], K, None
        if c["rep"] == "made":
            self.y0 = np.linspace(0.1, 0.3, K)
            self.y0_given = self.y0.copy()
            price = d.fn("price", lambda y: 2.0 * y * co + y * y if np.ndim(y) == 2 or K > 1 else 2.0 * y * co[0] + y * y)
            return L.make_repricing_fn(price, self.y0_given), ["price"], K, None
        inst, order = {}, []
        shuffled = list(range(K))
        r.shuffle(shuffled)
        inst["ALL"] = (tuple(names) if r.random() < 0.5 else list(names), d.fn("all", lambda x: x @ co if np.ndim(x) == 2 else x * 0.5))
        order.append(("all", list(range(K))))
        j = shuffled[0]
        i0 = d.fn("i0", lambda x: 0.25 * x + 0.5)
        inst["I0"] = ([names[j]] if r.random() < 0.5 else names[j], i0)
        order.append(("i0", [j]))
        if r.random() < 0.4:           # the same function prices two instruments
            inst["I0 again"] = (names[shuffled[-1]], i0)
            order.append(("i0", [shuffled[-1]]))
        j = shuffled[-1]
        inst[names[j]] = d.fn("i1", lambda x: -1.5 * x)
        order.append(("i1", [j]))
        sub = shuffled[:2][::-1]
        inst["I2"] = ([names[k] for k in sub], d.fn("i2", lambda x: (x[:, :1] if x.ndim == 2 else x) * 2.0))
        order.append(("i2", sub))
        items = list(zip(inst.items(), order))
        r.shuffle(items)
        inst = dict(it[0] for it in items)
        order = [it[1] for it in items]
        self.inst_names = list(inst)
        return inst, order, len(inst), self.inst_names

    def run(self, case):
        res = Result()
        self.bent_build = False
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            getattr(self, "k_" + case["kind"])(case, res)
        return res.out()

    def plan(self, c):
        return {(name, n): (how, exc) for name, n, how, exc in c["plan"]}

    def phases(self, c, d, *tail):
        """Misbehaving runs, one per planned failure type, then well-behaved ones; resets the driver before each."""
        first = True
        for name, plan in [("bent", None)] + [("bent", {(n, k): ("raise", x)}) for n, k, x in c["raises"]] + [(t, {}) for t in tail]:
            if not first:
                d.reset({(n, k + (n == "price")): v for (n, k), v in plan.items()})
            yield name, first
            first = False

    def attempt(self, res, c, d, fn):
        sim = sched.Sim({}, seam_budget=6000)
        with sim:
            sim.begin_op("a")
            o = common.guarded(fn)
        res.take(sim)
        res.op(c["kind"])
        for h in sorted(d.fired):
            res.fault("callback/" + h)
        return o

    def surfaced(self, res, c, d, o, ctx):
        """Common rules about failures.  True when the outcome needs no further check."""
        hows = sorted({h for (_, _, h, _) in c["plan"]})
        if d.after:
            res.bad("called again after failure", f"{ctx}: {d.after} more calls after the callback raised")
        if d.raised is not None:
            if o[0] == "ok":
                res.bad("failure swallowed", f"{ctx}: callback raised {type(d.raised).__name__}, call returned")
            elif o[1] is not d.raised:
                res.bad("failure replaced", f"{ctx}: callback raised {type(d.raised).__name__}, caller got {type(o[1]).__name__}: {o[1]}")
            return True
        if o[0] == "exc":
            bend = d.fired & (SHAPES | {"frame", "alien", "list", "ints", "nan"})
            if not bend and not self.bent_build:
                res.bad("failed without cause", f"{ctx}: {hows} {type(o[1]).__name__}: {o[1]}")
            elif not isinstance(o[1], (ValueError, TypeError, IndexError, AttributeError, KeyError)):
                res.bad("odd rejection", f"{ctx}: {type(o[1]).__name__}: {o[1]}")
            return True
        return False

    def rejected(self, res, d, ctx, n, width=1):
        """After a success: was a result of another length accepted?"""
        for name, got, _, out, _ in d.calls:
            if out is None:
                res.bad("result of another length accepted", f"{ctx}: {name} returned None")
                continue
            v = np.asarray(out, dtype=float)
            if v.ndim == 0:
                continue
            if v.shape[0] != n and v.size != n:
                res.bad("result of another length accepted", f"{ctx}: {name} returned shape {v.shape} for {n} scenarios")

    # -- expectations on one block of calls ------------------------------------------------
    def block(self, res, c, ctx, calls, order, R, p, h, n, names):
        """Check the slices of one combined call; returns (projected matrix, results by instrument, counts)."""
        if order == ["full"] or order == ["price"]:
            _, got, _, out, _ = calls[0]
            sums = np.asarray(got[0], float)
            if order == ["price"]:
                sums = sums - self.y0
            if len(sums) != n:
                res.bad("wrong slice", f"{ctx}: callback got {len(sums)} rows, {n} scenarios")
                return None
            cnt = self.decode_price(res, c, ctx, sums, R, p, h) if order == ["price"] else self.decode(res, c, ctx, sums, R, p, h)
            if cnt is None:
                return None
            v = np.asarray(out, float)
            if order == ["price"]:
                v = v - self.p0
            return sums, v, cnt
        by = {}
        for k in calls:
            by.setdefault(k[0], []).append(k)
        if sorted(k[0] for k in calls) != sorted(o[0] for o in order):
            res.bad("wrong number of calls", f"{ctx}: instruments called {[k[0] for k in calls]}, expected {[o[0] for o in order]}")
            return None
        delta = np.asarray(by["all"][0][1][0], float)
        if len(delta) != n:
            res.bad("wrong slice", f"{ctx}: callback got {delta.shape}, {n} scenarios")
            return None
        cnt = self.decode(res, c, ctx, delta, R, p, h)
        if cnt is None:
            return None
        delta = delta.reshape(n, -1)
        cols = []
        for name, idx in order:
            k = by[name].pop(0)
            got = np.asarray(k[1][0], float)
            want = delta[:, idx[0]] if len(idx) == 1 else delta[:, idx]
            if got.shape != want.shape or not np.array_equal(got, want):
                res.bad("wrong slice", f"{ctx}: {name} did not get driver columns {idx} as projected")
            out = k[3]
            v = np.asarray(np.nan if out is None else out, float)
            cols.append(np.full(n, float(v)) if v.ndim == 0 else v.ravel() if v.size == n else np.full(n, np.nan))
        return delta, np.column_stack(cols), cnt

    def decode_price(self, res, c, ctx, sums, R, p, h):
        # levels were y0 + delta: undo the rounding of the addition
        unit = 1.0 if c["form"] == "int" else 2.0 ** -16
        s = np.asarray(sums, float)
        s = np.round(s / unit) * unit
        return self.decode(res, c, ctx, s, R, p, h)

    def calls_expected(self, res, d, order, blocks, ctx, skip=0):
        per = len(order)
        calls = d.calls[skip:]
        if len(calls) != per * blocks:
            res.bad("wrong number of calls", f"{ctx}: {len(calls)} callback calls, expected {per * blocks} ({[k[0] for k in calls][:12]})")
            return None
        return [calls[i * per:(i + 1) * per] for i in range(blocks)]

    def setup(self, c, res):
        """Driver, data and reprice argument; None when building them is itself the observation."""
        d = Driver(self.plan(c))
        R, p, names, given = self.data(c)
        o = self.attempt(res, c, d, lambda: self.build(c, d, R, names, given))
        if o[0] == "exc":
            if o[1] is not d.raised:
                res.bad("failure replaced" if d.raised is not None else "failed without cause", f"make_repricing_fn: {type(o[1]).__name__}: {o[1]}")
            if len(d.calls) != 1:
                res.bad("wrong number of calls", f"make_repricing_fn: {len(d.calls)} calls of the pricing function")
            res.sig(c["kind"], "build", type(o[1]).__name__)
            return None
        rep, order, M, inst = o[1]
        self.p0 = 0.0
        if order == ["price"]:
            if len(d.calls) != 1:
                res.bad("wrong number of calls", f"make_repricing_fn: {len(d.calls)} calls of the pricing function at build")
                return None
            if not np.array_equal(np.asarray(d.calls[0][1][0], float), self.y0):
                res.bad("wrong slice", "make_repricing_fn: not priced at the current drivers")
            out = d.calls[0][3]
            self.p0 = 0.0 if out is None else np.asarray(out, float)
            if not np.array_equal(self.y0_given, self.y0):
                res.bad("caller's data altered", "make_repricing_fn: current drivers changed by the pricing function")
            if c["opt"] % 2:
                self.y0_given += 5.0         # the caller may reuse its array
        skip = len(d.calls)
        self.bent_build = bool(d.fired)
        return d, R, p, names, given, rep, order, M, inst, skip

    def snap_ok(self, res, given, before, p, p_before, ctx):
        if common.canon.diff(common.canon.canon(given), before) or (p is not None and not np.array_equal(p, p_before)):
            res.bad("caller's data altered", f"{ctx}: inputs changed by the call")

    def twice(self, c, res, s, blocks, call, check, h_of=lambda i, h: h, any_p=()):
        """Run misbehaving, then well-behaved on the same objects."""
        d, R, p, names, given, rep, order, M, inst, skip = s
        before = common.canon.canon(given)
        p0 = None if p is None else p.copy()
        # a composed specification becomes a callable for operations that take one
        for phase, first in self.phases(c, d, "clean"):
            skip = skip if first else 0
            ctx = f"{c['kind']}/{c['rep']} {phase}"
            o = self.attempt(res, c, d, call)
            self.snap_ok(res, given, before, p, p0, ctx)
            done = self.surfaced(res, c, d, o, ctx) if phase == "bent" else False
            if phase == "clean" and o[0] == "exc":
                # the build result may itself be misshapen (pricing at the current level)
                if not (order == ["price"] and self.bent_build):
                    res.bad("retry failed", f"{ctx}: {type(o[1]).__name__}: {o[1]}")
                done = True
            res.sig(c["kind"], c["rep"], phase, sorted(d.fired), o[0], type(o[1]).__name__ if o[0] == "exc" else "")
            if not done:
                groups = self.calls_expected(res, d, order, blocks, ctx, skip)
                if groups is not None:
                    self.rejected_groups(res, d, groups, order, ctx, c["n"], R)
                    mats = [self.block(res, c, ctx, g, order, R, "any" if i in any_p else p, h_of(i, c["h"]), c["n"], names) for i, g in enumerate(groups)]
                    if all(m is not None for m in mats):
                        check(o[1], mats, ctx, d)
                        self.keepers(res, c, d, o[1], ctx)

    def rejected_groups(self, res, d, groups, order, ctx, n, R):
        for g in groups:
            for name, got, _, out, _ in g:
                if out is None:
                    res.bad("result of another length accepted", f"{ctx}: {name} returned None")
                    continue
                v = np.asarray(out, float)
                if v.ndim and v.shape[0] != n and v.size != n:
                    res.bad("result of another length accepted", f"{ctx}: {name} returned shape {v.shape} for {n} scenarios")
                elif name in ("i0", "i1", "i2", "all") and v.ndim and v.size != n:
                    res.bad("result of another length accepted", f"{ctx}: {name} returned shape {v.shape} for {n} scenarios")

    def keepers(self, res, c, d, out, ctx):
        """What a callback was given stays its own: overwriting it later changes nothing."""
        before = common.canon.canon(out)
        for name, _, args, ret, _ in d.calls:
            for a in args:
                if isinstance(a, np.ndarray) and a.flags.writeable and a.dtype.kind == "f" and not self.returned(d, a):
                    a[...] = -3e7
        diff = common.canon.diff(common.canon.canon(out), before)
        if diff:
            res.bad("result tied to a callback's argument", f"{ctx}: {diff}")

    @staticmethod
    def returned(d, a):
        return "inplace" in d.fired

    def eq(self, res, ctx, what, got, want, tol=1e-9):
        got, want = np.asarray(got, float), np.asarray(want, float)
        if got.shape != want.shape:
            res.bad(what, f"{ctx}: shape {got.shape}, callback results give {want.shape}")
        elif not np.allclose(got, want, rtol=tol, atol=tol, equal_nan=True):
            k = int(np.nanargmax(np.abs(got - want).ravel())) if np.isfinite(got - want).any() else 0
            res.bad(what, f"{ctx}: {got.ravel()[k]} where the callback's result gives {want.ravel()[k]}")

    def as_callable(self, s):
        """(callable for operations that take only callables)"""
        rep = s[5]
        if isinstance(rep, dict):
            fn, nm = boot.LIB.compose_repricers(rep, s[3])
            return fn, nm
        return rep, None

    # -- operations ----------------------------------------------------------------------
    def k_project(self, c, res):
        import pandas as pd
        s = self.setup(c, res)
        if s is None:
            return
        d, R, p, names, given, rep, order, M, inst, skip = s
        if isinstance(rep, dict) and (M != R.shape[1]) and isinstance(given, (pd.DataFrame, pd.Series)):
            given = R.copy()       # documented: tables keep their columns, so another width needs arrays
            s = s[:4] + (given,) + s[5:]
        fn, nm = self.as_callable(s)
        if nm is not None and nm != inst:
            res.bad("instrument order", f"compose_repricers names {nm}, given {inst}")
        kw = {} if c["opt"] % 3 else {"investment_horizon": np.int64(c["h"])}
        kw.setdefault("investment_horizon", c["h"])

        def call():
            return boot.LIB.project_scenarios(given, p=p, n_simulations=c["n"], reprice=fn, seed=c["seed"] % 977, **kw)

        def check(out, mats, ctx, d):
            want = mats[0][1]
            raw = d.calls[-1][3]
            if isinstance(given, pd.DataFrame):
                if not isinstance(out, pd.DataFrame) or list(out.columns) != names or list(out.index) != list(range(c["n"])):
                    res.bad("projected table mislabelled", f"{ctx}: {type(out).__name__}")
                    return
            elif isinstance(given, pd.Series):
                if not isinstance(out, pd.Series) or out.name != "drv0" or len(out) != c["n"]:
                    res.bad("projected table mislabelled", f"{ctx}: {type(out).__name__}")
                    return
            got = np.asarray(out, float)
            if got.ndim == 1 and want.ndim == 2 and want.shape[1] == 1:
                want = want[:, 0]
            if want.ndim == 1 and got.ndim == 2 and got.shape[1] == 1:
                got = got[:, 0]
            self.eq(res, ctx, "projected results", got, want)
        self.twice(c, res, s, 1, call, check)

    def k_compose(self, c, res):
        """The combined function called directly, several times, by one caller."""
        c = dict(c, rep="comp")
        d = Driver(self.plan(c))
        R, p, names, given = self.data(dict(c, form="nd"))
        c["form"] = "nd"
        inst, order, M, nm = self.build(c, d, R, names, given)
        o = self.attempt(res, c, d, lambda: boot.LIB.compose_repricers(inst, tuple(names) if c["opt"] % 2 else names))
        if o[0] == "exc":
            res.bad("failed without cause", f"compose_repricers: {o[1]!r}")
            return
        if d.calls:
            res.bad("wrong number of calls", f"compose_repricers called {[k[0] for k in d.calls]} while building")
        fn, got_names = o[1]
        if list(got_names) != nm:
            res.bad("instrument order", f"compose_repricers names {got_names}, given {nm}")
        r = rnd(c["opt"], "x")
        idx = [[r.randrange(c["T"]) for _ in range(c["h"])] for _ in range(c["n"])]
        X = R[np.array(idx)].sum(axis=1)
        given = X.copy(order=r.choice("CF"))
        if R.shape[1] == 1 and r.random() < 0.4:
            given = X[:, 0].copy()
        s = (d, R, None, names, given, inst, order, M, nm, 0)

        def check(out, mats, ctx, d):
            self.eq(res, ctx, "composed results", out, mats[0][1])
            if not np.array_equal(mats[0][0], X):
                res.bad("wrong slice", f"{ctx}: instruments saw other scenarios than the caller's")
        self.twice(c, res, s, 1, lambda: fn(given), check)

    def k_made(self, c, res):
        c = dict(c, rep="made", form="nd")
        s = self.setup(c, res)
        if s is None:
            return
        d, R, p, names, given, rep, order, M, inst, skip = s
        r = rnd(c["opt"], "x")
        X = R[np.array([[r.randrange(c["T"]) for _ in range(c["h"])] for _ in range(c["n"])])].sum(axis=1)
        given = X.copy()
        s = s[:4] + (given,) + s[5:]
        s = s[:2] + (None,) + s[3:]

        def check(out, mats, ctx, d):
            v = np.asarray(d.calls[-1][3], float)
            self.eq(res, ctx, "repriced P&L", out, v - self.p0)
        self.twice(c, res, s, 1, lambda: rep(given), check)

    def k_paths(self, c, res):
        s = self.setup(c, res)
        if s is None:
            return
        d, R, p, names, given, rep, order, M, inst, skip = s
        fn, _ = self.as_callable(s)
        K = R.shape[1]

        def call():
            return boot.LIB.utils.projection.simulate_paths(given, c["h"], c["n"], p=p, reprice=fn, seed=c["seed"] % 977)
        if isinstance(rep, dict) and M != K:
            o = self.attempt(res, c, d, call)
            if d.raised is not None:
                self.surfaced(res, c, d, o, "paths/comp")
            elif o[0] == "ok":
                res.bad("result of another length accepted", f"paths/comp: {M} instruments for {K} drivers gave shape {np.shape(o[1])}")
            elif not isinstance(o[1], (ValueError, TypeError)):
                res.bad("odd rejection", f"paths/comp: {o[1]!r}")
            res.sig("paths", "width", o[0])
            return

        def check(out, mats, ctx, d):
            out = np.asarray(out)
            if out.shape != (c["n"], c["h"], K):
                res.bad("path shape", f"{ctx}: {out.shape}")
                return
            prev = None
            for t, (sums, v, cnt) in enumerate(mats):
                v = v.reshape(c["n"], -1)
                if v.shape[1] != K:
                    res.bad("result of another length accepted", f"{ctx}: step {t} returned shape {v.shape}")
                    continue
                self.eq(res, ctx, "path step holds another result", out[:, t, :], v)
                if prev is not None and np.any(cnt < prev):
                    res.bad("paths broken", f"{ctx}: step {t} does not continue step {t - 1}")
                prev = cnt
        self.twice(c, res, s, c["h"], call, check, h_of=lambda i, h: i + 1)

    def metrics(self, X, w, conf):
        """Textbook figures of the P&L of `w` on equally likely scenarios."""
        x = np.asarray(X, float) @ w
        n = len(x)
        a = 1.0 - conf
        srt = np.sort(x)
        left, tail = a, 0.0
        for v in srt:
            q = min(left, 1.0 / n)
            tail += q * v
            left -= q
            if left <= 1e-15:
                break
        return x.mean(), np.sqrt(max(((x - x.mean()) ** 2).mean(), 0)), -tail / a

    def cmp_metrics(self, res, ctx, what, row, X, w, conf, cols):
        m, sd, cv = self.metrics(X, w, conf)
        scale = 1e-9 + np.abs(np.asarray(X)).max() * np.abs(w).sum()
        for name, want in zip(cols, (m, sd, cv)):
            if abs(float(row[name]) - want) > 1e-7 * scale:
                res.bad(what, f"{ctx}: {name} {float(row[name])}, callback results give {want}")

    def weights(self, c, labels, M):
        """Weights in some dress, and the plain vector in output order."""
        import pandas as pd
        r = rnd(c["opt"], "w")
        w = np.array([r.choice([0.1, 0.5, -0.2, 1.0]) + 0.01 * j for j in range(M)])
        if labels is None or r.random() < 0.4:
            return w.copy(), w
        ix = list(range(M))
        r.shuffle(ix)
        return pd.Series(w[ix], index=[labels[j] for j in ix]), w

    def finite(self, mats):
        return all(np.isfinite(m[1]).all() for m in mats)

    def k_report(self, c, res):
        import pandas as pd
        s = self.setup(c, res)
        if s is None:
            return
        d, R, p, names, given, rep, order, M, inst, skip = s
        if isinstance(given, pd.Series) or np.ndim(given) == 1:
            given = R.copy()
        if isinstance(rep, dict) and M != R.shape[1] and isinstance(given, pd.DataFrame):
            given = R.copy()
        s = s[:4] + (given,) + s[5:]
        fn, _ = self.as_callable(s)
        w, wv = self.weights(c, names if isinstance(given, pd.DataFrame) else None, M)
        r = rnd(c["opt"], "hs")
        hs = sorted(set([c["h"]] + [r.randrange(1, c["h"] + 1) for _ in range(2)]))
        r.shuffle(hs)

        def call():
            return boot.LIB.utils.performance.horizon_report(w, given, horizons=tuple(hs), n_simulations=c["n"], p=p, reprice=fn, confidence=0.9,
                                                             seed=None if r.random() < 0.2 else c["seed"] % 977)

        def check(out, mats, ctx, d):
            if len(out) != len(hs):
                res.bad("horizon rows", f"{ctx}: {len(out)} rows for horizons {hs}")
                return
            label = {4: "1m", 13: "3m", 26: "6m", 52: "1y"}
            if list(out.index) != [label.get(h, f"{h}w") for h in hs]:
                res.bad("horizon rows", f"{ctx}: rows {list(out.index)} for horizons {hs}")
                return
            for i, m in enumerate(mats):
                if np.isfinite(m[1]).all():
                    self.cmp_metrics(res, ctx, "horizon row holds another result", out.iloc[i], m[1].reshape(c["n"], -1), wv, 0.9, ["mean", "stdev", "CVaR90"])
        self.twice(c, res, s, len(hs), call, check, h_of=lambda i, h: hs[i])

    def k_drawdown(self, c, res):
        import pandas as pd
        s = self.setup(c, res)
        if s is None:
            return
        d, R, p, names, given, rep, order, M, inst, skip = s
        if isinstance(given, pd.Series):
            given = R.copy()
            s = s[:4] + (given,) + s[5:]
        if isinstance(rep, dict):
            return self.k_paths(c, res)
        fn, _ = self.as_callable(s)
        w, wv = self.weights(c, names if isinstance(given, pd.DataFrame) else None, R.shape[1])

        def call():
            return boot.LIB.utils.performance.drawdown_quantile(w, given, c["h"], confidence=0.9, n_paths=c["n"], p=p, reprice=fn, seed=c["seed"] % 977)

        def check(out, mats, ctx, d):
            wealth = np.column_stack([1.0 + m[1].reshape(c["n"], -1) @ wv for m in mats])
            if not np.isfinite(wealth).all():
                return
            top = np.maximum.accumulate(wealth, axis=1)
            dd = ((top - wealth) / np.where(top > 0, top, 1.0)).max(axis=1)
            want = [dd.mean(), np.median(dd), np.quantile(dd, 0.9), dd.max()]
            got = [out["max_dd_mean"], out["max_dd_median"], out["max_dd_90"], out["max_dd_worst"]]
            self.eq(res, ctx, "drawdown of other paths", got, want, tol=1e-8)
        self.twice(c, res, s, c["h"], call, check, h_of=lambda i, h: i + 1)

    def k_frominv(self, c, res):
        import pandas as pd
        c = dict(c, K=max(2, c["K"]), n=max(8, c["n"]), form="df" if c["rep"] == "comp" else c["form"] if c["form"] in ("nd", "df", "int", "f") else "nd")
        s = self.setup(c, res)
        if s is None:
            return
        d, R, p, names, given, rep, order, M, inst, skip = s
        L = boot.LIB

        def call():
            w = L.PortfolioWrapper.from_invariants(given, horizon=c["h"], n_simulations=c["n"], p=p, reprice=rep, seed=c["seed"] % 977)
            return (w.dist.scenarios, w.dist.asset_names, w.dist.probabilities)

        def check(out, mats, ctx, d):
            self.eq(res, ctx, "scenarios differ from the repriced results", out[0], mats[0][1])
            want = inst or (names if isinstance(given, pd.DataFrame) else None)
            if not d.fired & {"frame", "alien"} and (None if out[1] is None else list(out[1])) != want:
                res.bad("instrument order", f"{ctx}: asset names {out[1]}, expected {want}")
        self.twice(c, res, s, 1, call, check)

    def k_stinv(self, c, res):
        import pandas as pd
        r = rnd(c["opt"], "st")
        views = r.random() < 0.6
        c = dict(c, form="df" if c["rep"] == "comp" or views else c["form"] if c["form"] in ("nd", "df", "f") else "nd", n=max(2, c["n"]), p="none")
        if views and c["T"] < 3:
            c["T"] = 4 if c["h"] < 5 else 6
        s = self.setup(c, res)
        if s is None:
            return
        d, R, p, names, given, rep, order, M, inst, skip = s
        labels = inst or (names if isinstance(given, pd.DataFrame) else None)
        w, wv = self.weights(c, labels, M)
        v = None
        if views:
            x = R[:, -1]
            v = {names[-1]: (">=", float(0.5 * x.mean() + 0.5 * x.max()))} if x.max() > x.min() else None
        before_views = copy.deepcopy(v)

        def call():
            return boot.LIB.stress.stress_invariants(given, w, rep, stress_views=v, horizon=c["h"], n_simulations=c["n"], seed=c["seed"] % 977, confidence=0.9)

        def check(out, mats, ctx, d):
            if v != before_views:
                res.bad("caller's data altered", f"{ctx}: views changed")
            if len(out) != 1:
                res.bad("stress table shape", f"{ctx}: {out.shape}")
                return
            tags = ["nom", "stressed"][:len(mats)]
            if v and c["n"] >= 2000:
                x = R[:, -1]
                got = (mats[1][2] @ x).mean() / c["h"]
                if got < v[names[-1]][1] - 6 * (x.max() - x.min()) / np.sqrt(c["n"] * c["h"]):
                    res.bad("stressed scenarios ignore the views", f"{ctx}: mean of the stressed driver {got}, view >= {v[names[-1]][1]}")
            for m, tag in zip(mats, tags):
                if np.isfinite(m[1]).all():
                    self.cmp_metrics(res, ctx, "stress column holds another result", out.iloc[0], m[1].reshape(c["n"], -1), wv, 0.9,
                                     [f"return_{tag}", f"stdev_{tag}", f"CVaR90_{tag}"])
        self.twice(c, res, s, 2 if v else 1, call, check, any_p=(1,))

    def k_transform(self, c, res):
        import pandas as pd
        r = rnd(c["opt"], "tr")
        R = np.random.Generator(np.random.PCG64(c["seed"])).normal(size=(max(3, c["T"]), c["K"])) * 0.05
        names = ["a%d" % j for j in range(c["K"])]
        given = pd.DataFrame(R.copy(), columns=names) if c["form"] in ("df", "series") else np.array(R, order="F" if c["form"] == "f" else "C")
        d = Driver(self.plan(c))
        fn = d.fn("transform", lambda x: x * 1.5 - 0.01)
        W, wv = self.weights(c, names if isinstance(given, pd.DataFrame) else None, c["K"])
        p = None if c["p"] == "none" else np.full(len(R), 1.0 / len(R))
        before = common.canon.canon(given)
        for phase, first in self.phases(c, d, "clean"):
            ctx = f"stress_test {phase}"
            o = self.attempt(res, c, d, lambda: boot.LIB.stress.stress_test(W, given, probabilities=p, transform=fn, confidence=0.9))
            if common.canon.diff(common.canon.canon(given), before):
                res.bad("caller's data altered", f"{ctx}: scenarios changed")
            res.sig("transform", phase, sorted(d.fired), o[0])
            if len(d.calls) != 1:
                res.bad("wrong number of calls", f"{ctx}: transform called {len(d.calls)} times")
            elif not np.array_equal(np.asarray(d.calls[0][1][0], float), R):
                res.bad("wrong slice", f"{ctx}: transform did not get the scenarios")
            if phase == "clean" and o[0] == "exc":
                res.bad("retry failed", f"{ctx}: {o[1]!r}")
            elif not self.surfaced(res, c, d, o, ctx):
                out = d.calls[0][3]
                v = np.asarray(np.nan if out is None else out, float)
                if v.shape != R.shape:
                    res.bad("result of another length accepted", f"{ctx}: transform returned {v.shape} for {R.shape}")
                elif not np.isfinite(v).all():
                    res.bad("non-finite stress accepted", ctx)
                else:
                    row = o[1].iloc[0]
                    self.cmp_metrics(res, ctx, "stress column holds another result", row, v, wv, 0.9, ["return_stress", "stdev_stress", "CVaR90_stress"])
                    self.cmp_metrics(res, ctx, "nominal column holds another result", row, R, wv, 0.9, ["return_nom", "stdev_nom", "CVaR90_nom"])

    def k_sampler(self, c, res):
        import pandas as pd
        N, n = c["K"] + 1, max(12, c["n"])
        r = np.random.Generator(np.random.PCG64(c["seed"]))
        A = r.normal(size=(N, N + 2))
        mu, cov = r.normal(size=N) * 0.1, A @ A.T / N * 0.01
        lab = c["form"] in ("df", "series")
        names = ["s%d" % j for j in range(N)]
        gm, gc = (pd.Series(mu.copy(), index=names), pd.DataFrame(cov.copy(), index=names, columns=names)) if lab else (mu.copy(), cov.copy())
        d = Driver(self.plan(c))
        draws = r.normal(size=(n, N))
        four = c["opt"] % 2 == 0

        def body(m, S, k, rng=None):
            return np.asarray(m) + draws[:k] if rng is None else np.asarray(m) + draws[:k] + 0.01 * rng.standard_normal((k, N))
        inner = d.fn("sampler", body)
        fn = (lambda mu, cov, n, rng: inner(mu, cov, n, rng)) if four else (lambda mu, cov, n: inner(mu, cov, n))
        view = {names[0] if lab else "0": (">=", float(mu[0]))} if c["nested"] else None
        seed = c["seed"] % 977

        def call():
            q = boot.LIB.FlexibleViewsProcessor(prior_mean=gm, prior_cov=gc, distribution_fn=fn, num_scenarios=n, random_state=seed, mean_views=view)
            return np.asarray(q.get_posterior()[0], float), np.asarray(q.get_posterior()[1], float), np.asarray(q.get_posterior_probabilities(), float).ravel()
        outs = []
        for phase, first in self.phases(c, d, "clean", "again"):
            ctx = f"view sampling {phase}"
            o = self.attempt(res, c, d, call)
            if not (np.array_equal(np.asarray(gm), mu) and np.array_equal(np.asarray(gc), cov)):
                res.bad("caller's data altered", f"{ctx}: prior moments changed")
                gm, gc = (gm * 0 + mu, gc * 0 + cov)
            if len(d.calls) != 1:
                res.bad("wrong number of calls", f"{ctx}: sampler called {len(d.calls)} times")
            else:
                got = d.calls[0][1]
                if len(got) != (4 if four else 3) or got[2] != n or not np.array_equal(np.asarray(got[0], float), mu) or \
                        not np.allclose(np.asarray(got[1], float), cov, rtol=0, atol=1e-5):
                    res.bad("wrong slice", f"{ctx}: sampler did not get the prior moments and the scenario count")
            res.sig("sampler", four, phase, sorted(d.fired), o[0])
            infeasible = view is not None and o[0] == "exc" and d.raised is None and isinstance(o[1], (RuntimeError, ValueError))
            if phase != "bent" and o[0] == "exc":
                if not infeasible:
                    res.bad("retry failed", f"{ctx}: {o[1]!r}")
            elif infeasible or self.surfaced(res, c, d, o, ctx):
                pass
            else:
                out = d.calls[0][3]
                v = np.asarray(np.nan if out is None else out, float)
                if v.shape != (n, N):
                    res.bad("result of another length accepted", f"{ctx}: sampler returned {v.shape} for {(n, N)}")
                elif np.isfinite(v).all():
                    m, S, q = o[1]
                    if len(q) != n:
                        res.bad("posterior of other scenarios", f"{ctx}: {len(q)} probabilities for {n} scenarios")
                    elif view is None:
                        self.eq(res, ctx, "posterior of other scenarios", m, v.mean(axis=0), tol=1e-8)
                    else:
                        self.eq(res, ctx, "posterior of other scenarios", m, q @ v, tol=1e-7)
                if phase != "bent":
                    outs.append(o[1])
        if len(outs) == 2 and common.canon.diff(common.canon.canon(outs[0]), common.canon.canon(outs[1])):
            res.bad("same seed, other draws", "view sampling with a sampler is not repeatable")

    def k_spec(self, c, res):
        """Builder functions of ensemble specifications."""
        import pandas as pd
        L = boot.LIB
        r = rnd(c["opt"], "spec")
        N, T = c["K"] + 1, 12 + c["T"]
        X = np.random.Generator(np.random.PCG64(c["seed"])).normal(size=(T, N)) * 0.03
        names = ["e%d" % j for j in range(N)]
        ret = pd.DataFrame(X.copy(), columns=names)
        d = Driver(self.plan(c))
        use_fac, scen = r.random() < 0.25, r.random() < 0.3
        okw, skw = {"num_portfolios": r.choice([2, 3])}, {"shift": r.choice([0, 1])}
        Wf = np.random.Generator(np.random.PCG64(c["seed"] + 1)).dirichlet(np.ones(N), 4).T

        def optimiser(wrapper, **kw):
            return L.PortfolioFrontier(weights=Wf.copy(), returns=np.arange(4.0), risks=np.arange(4.0) + 1, risk_measure="r", asset_names=list(names))

        dist = L.AssetsDistribution(mu=pd.Series(np.linspace(0.01, 0.05, N), index=names), cov=pd.DataFrame(np.eye(N) * 0.02, index=names, columns=names))
        kw = dict(optimiser=d.fn("optimiser", optimiser), optimiser_kwargs=dict(okw),
                  selector=d.fn("selector", lambda f, shift=0: np.array(f.weights[:, 1 + shift])), selector_kwargs=dict(skw))
        expect = []
        if use_fac:
            kw["distribution_factory"] = d.fn("factory", lambda: dist)
            expect = ["factory"]
        else:
            kw["returns"] = ret
            kw["use_scenarios"] = scen
            if r.random() < 0.8:
                kw["preprocess"] = d.fn("preprocess", lambda df: df * 2.0)
                expect.append("preprocess")
            if not scen and r.random() < 0.8:
                kw["projection"] = {"annualization_factor": 12.0, "transform": d.fn("moments", lambda m, S: (m + 0.5, S * 3.0))}
                expect.append("moments")
        expect += ["optimiser", "selector"]
        o = self.attempt(res, c, d, lambda: L.make_portfolio_spec("only", **kw))
        if o[0] == "exc":
            res.bad("failed without cause", f"make_portfolio_spec: {o[1]!r}")
            return
        if d.calls:
            res.bad("wrong number of calls", f"make_portfolio_spec ran {[k[0] for k in d.calls]} while building")
        spec = o[1]
        for phase, first in self.phases(c, d, "clean", "again"):
            ctx = f"specification {phase}"
            o = self.attempt(res, c, d, lambda: L.assemble_portfolio_ensemble([spec], ensemble=None))
            got = [k[0] for k in d.calls]
            if not np.array_equal(ret.to_numpy(), X):
                res.bad("caller's data altered", f"{ctx}: returns changed by a builder function")
                ret.iloc[...] = X
            res.sig("spec", use_fac, scen, phase, sorted(d.fired), o[0], got)
            if d.raised is not None or o[0] == "exc":
                if got != expect[:len(got)]:
                    res.bad("wrong number of calls", f"{ctx}: {got}, expected a start of {expect}")
                if phase != "bent":
                    res.bad("retry failed", f"{ctx}: {o[1]!r}")
                elif d.raised is not None:
                    self.surfaced(res, c, d, o, ctx)
                elif not d.fired:
                    res.bad("failed without cause", f"{ctx}: {o[1]!r}")
            else:
                if got != expect:
                    res.bad("wrong number of calls", f"{ctx}: {got}, expected {expect}")
                for name, args, raw, out, k in d.calls:
                    if name == "preprocess" and not (list(args[0].columns) == names and np.array_equal(args[0].to_numpy(), X)):
                        res.bad("wrong slice", f"{ctx}: preprocess did not get the returns")
                    if name == "moments" and "preprocess" in expect and phase != "bent":
                        if not np.allclose(np.asarray(args[0]), 12 * 2 * X.mean(axis=0), rtol=1e-9, atol=1e-12):
                            res.bad("wrong slice", f"{ctx}: projection transform did not get the annualised moments")
                    if name == "optimiser":
                        if k != okw:
                            res.bad("wrong arguments", f"{ctx}: optimiser got {k}, expected {okw}")
                        w = raw[0]
                        if use_fac and w.dist is not dist:
                            res.bad("wrong slice", f"{ctx}: the builder's distribution did not reach the optimiser")
                        if phase != "bent" and not use_fac:
                            f = 2.0 if "preprocess" in expect else 1.0
                            if scen:
                                if not np.allclose(np.asarray(w.dist.scenarios), f * X):
                                    res.bad("callback result lost", f"{ctx}: optimiser saw other scenarios than preprocess returned")
                            else:
                                a = 12.0 * f * X.mean(axis=0) + 0.5 if "moments" in expect else f * X.mean(axis=0)
                                if not np.allclose(np.asarray(w.dist.mu), a, rtol=1e-8, atol=1e-12):
                                    res.bad("callback result lost", f"{ctx}: optimiser saw other moments than the transform returned")
                    if name == "selector" and k != skw:
                        res.bad("wrong arguments", f"{ctx}: selector got {k}, expected {skw}")
                if phase != "bent":
                    self.eq(res, ctx, "selection differs from the selector's result", o[1].selections["only"].to_numpy(), Wf[:, 1 + skw["shift"]])


CHECK = C12()
