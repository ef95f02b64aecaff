"""Fault actions at seams.  An action is a small JSON dict."""
import numpy as np

EXC = {
    "ArithmeticError": ArithmeticError,
    "ZeroDivisionError": ZeroDivisionError,
    "ValueError": ValueError,
    "RuntimeError": RuntimeError,
    "MemoryError": MemoryError,
    "TypeError": TypeError,
    "KeyError": KeyError,
    "OSError": OSError,
    "FloatingPointError": FloatingPointError,
    "LinAlgError": np.linalg.LinAlgError,
    "KeyboardInterrupt": KeyboardInterrupt,
    "StopIteration": StopIteration,
    "AttributeError": AttributeError,
    "IndexError": IndexError,
    "NotImplementedError": NotImplementedError,
}


class InjectedMixin:
    pass


_INJ = {}


def injected(name, text="injected"):
    """An exception instance that is an EXC[name] and is recognisable as ours."""
    base = EXC[name]
    cls = _INJ.get(name)
    if cls is None:
        cls = _INJ[name] = type("Injected" + name, (InjectedMixin, base), {})
    return cls(text)


def _np(m):
    return np.array(m, dtype=float)


def apply(action, cls, name, orig, a, k):
    """Carry out `action` instead of (or around) the call.  Returns (result, fired)."""
    act = action["act"]
    if act == "raise":
        raise injected(action["exc"], "injected at " + name)
    if act == "raise_after":
        orig(*a, **k)
        raise injected(action["exc"], "injected after " + name)
    if cls == "solver":
        return _solver(action, name, orig, a, k)
    if cls == "minimize":
        return _minimize(action, orig, a, k)
    if cls == "milp":
        return _milp(action, orig, a, k)
    if cls == "linalg" and act == "nan":     # non-finite values instead of an error, as LAPACK may return them
        res = orig(*a, **k)
        bad = lambda v: np.full_like(np.asarray(v, dtype=float), np.nan) if np.ndim(v) else float("nan")
        if isinstance(res, tuple):
            return (type(res)(*[bad(v) for v in res]) if hasattr(res, "_fields") else tuple(bad(v) for v in res)), True
        return bad(res), True
    return orig(*a, **k), False


def _solver(action, name, orig, a, k):
    from cvxopt import matrix, solvers
    act = action["act"]
    if act == "starve":
        opts = dict(k.get("options") or solvers.options)
        opts["maxiters"] = int(action["iters"])
        k = dict(k)
        k["options"] = opts
        if k.get("solver") == "glpk" or "glpk" in a:
            act = "status"
            action = {"act": "status", "status": "unknown", "x": "poison", "seed": action.get("seed", 0)}
        else:
            sol = orig(*a, **k)
            return sol, sol.get("status") != "optimal"
    if act == "status":
        try:
            sol = dict(orig(*a, **k))
        except (ArithmeticError, ValueError):
            return orig(*a, **k), False
        kind = action.get("x", "poison")
        rng = np.random.Generator(np.random.PCG64(int(action.get("seed", 0))))
        x = sol.get("x")
        sol["status"] = action["status"]
        if kind == "none" or x is None:
            for key in ("x", "s", "y", "z", "sl", "zl", "primal objective"):
                if key in sol:
                    sol[key] = None
        else:
            v = _np(x).ravel()
            if kind == "poison":      # plausible looking but wrong
                v = v + 0.3 * rng.standard_normal(v.size) * (0.05 + np.abs(v))
            elif kind == "garbage":
                v = 10.0 * rng.standard_normal(v.size)
            elif kind == "nan":
                v = np.full(v.size, np.nan)
            sol["x"] = matrix(v.reshape(-1, 1))
            if kind != "true" and isinstance(sol.get("primal objective"), float):
                sol["primal objective"] = float(sol["primal objective"]) * 1.5 - 0.1
        return sol, True
    return orig(*a, **k), False


def _minimize(action, orig, a, k):
    act = action["act"]
    res = orig(*a, **k)
    rng = np.random.Generator(np.random.PCG64(int(action.get("seed", 0))))
    if act == "flag":            # right point, honest 'not converged' flag
        res.success = False
        res.status = 3
        res.message = "injected: not converged"
        return res, True
    if act == "stall":           # never moved, says so
        x0 = k.get("x0", a[1] if len(a) > 1 else None)
        res.x = np.array(x0, dtype=float)
        res.success = False
        res.status = 4
        res.message = "injected: stalled"
        return res, True
    if act == "partial":         # some way off, says so
        res.x = np.asarray(res.x, dtype=float) * rng.uniform(0.1, 0.9)
        res.success = False
        res.status = 3
        res.message = "injected: evaluation limit"
        return res, True
    if act == "lie":             # claims success at a point short of (or beyond) the optimum
        res.x = np.asarray(res.x, dtype=float) * float(action["f"])
        res.success = True
        res.status = 1
        return res, True
    if act == "starve":          # genuine starvation
        k = dict(k)
        opts = dict(k.get("options") or {})
        opts["maxfun"] = int(action["iters"])
        if "maxiter" in opts:
            opts["maxiter"] = int(action["iters"])
        k["options"] = opts
        res = orig(*a, **k)
        return res, not res.success
    return res, False


def _milp(action, orig, a, k):
    import scipy.optimize as so
    act = action["act"]
    if act == "limit":           # genuine limit: may or may not find a solution
        k = dict(k)
        opts = dict(k.get("options") or {})
        opts["node_limit"] = int(action.get("nodes", 0))
        opts["presolve"] = False
        k["options"] = opts
        res = orig(*a, **k)
        return res, not res.success
    res = orig(*a, **k)
    if act == "fail":
        x = res.x
        kind = action.get("x", "none")
        if kind == "none" or x is None:
            x = None
        elif kind == "poison":
            rng = np.random.Generator(np.random.PCG64(int(action.get("seed", 0))))
            x = np.array(x, dtype=float)
            x = np.maximum(0.0, np.floor(x * rng.uniform(0.3, 1.3, x.size)))
        out = so.OptimizeResult(x=x, fun=None, success=False, status=int(action.get("status", 1)),
                                message="injected: MILP failure", mip_node_count=0,
                                mip_dual_bound=None, mip_gap=None)
        return out, True
    return res, False


SOLVER_ACTIONS = ["status_true", "status_poison", "status_garbage", "status_none", "status_nan", "starve",
                  "raise_ArithmeticError", "raise_ValueError", "raise_ZeroDivisionError",
                  "raise_MemoryError", "raise_RuntimeError"]
STATUSES = ["unknown", "primal infeasible", "dual infeasible"]


def gen_action(rng, cls):
    """A random failing action for a seam class (rng: random.Random)."""
    if cls == "solver":
        k = rng.choice(SOLVER_ACTIONS)
        if k.startswith("status_"):
            return {"act": "status", "status": rng.choice(STATUSES), "x": k[7:], "seed": rng.randrange(1 << 30)}
        if k == "starve":
            return {"act": "starve", "iters": rng.choice([1, 2, 3, 4, 5, 6])}
        return {"act": "raise", "exc": k[6:]}
    if cls == "minimize":
        k = rng.choice(["flag", "stall", "partial", "starve", "raise", "raise"])
        if k == "starve":
            return {"act": "starve", "iters": rng.choice([1, 2, 3, 5, 8])}
        if k == "raise":
            return {"act": "raise", "exc": rng.choice(["RuntimeError", "ValueError", "MemoryError",
                                                       "FloatingPointError"])}
        return {"act": k, "seed": rng.randrange(1 << 30)}
    if cls == "milp":
        k = rng.choice(["fail", "fail", "fail", "raise", "limit"])
        if k == "fail":
            return {"act": "fail", "status": rng.choice([1, 2, 3, 4]), "x": rng.choice(["none", "true", "poison"]),
                    "seed": rng.randrange(1 << 30)}
        if k == "limit":
            return {"act": "limit", "nodes": rng.choice([0, 1, 2])}
        return {"act": "raise", "exc": rng.choice(["ValueError", "RuntimeError", "MemoryError", "OSError"])}
    if cls == "linalg":
        return {"act": "raise", "exc": rng.choice(["LinAlgError", "LinAlgError", "LinAlgError", "ValueError",
                                                   "MemoryError"])}
    if cls == "callback":
        return {"act": "raise", "exc": rng.choice(["ValueError", "RuntimeError", "TypeError", "KeyError",
                                                   "MemoryError", "ArithmeticError", "AttributeError",
                                                   "IndexError", "OSError", "StopIteration"])}
    raise KeyError(cls)


def label(cls, action):
    d = action["act"]
    if d == "status":
        d += ":" + action["status"].split()[0] + ":" + action.get("x", "")
    elif "raise" in d:
        d += ":" + action["exc"]
    return f"{cls}/{d}"
