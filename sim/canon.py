"""Canonical values (for comparing results) and exact snapshots (for detecting mutation)."""
import dataclasses
import hashlib
import types

import numpy as np
import pandas as pd

from . import boot


def _pkg(o):
    return (type(o).__module__ or "").startswith("pyvallocation")


def canon(o, depth=0):
    """A comparable tree.  Arrays stay arrays."""
    if depth > 12:
        return ("deep", type(o).__name__)
    if o is None or isinstance(o, (bool, str, bytes)):
        return o
    if isinstance(o, (int, np.integer)):
        return int(o)
    if isinstance(o, (float, np.floating)):
        return float(o)
    if isinstance(o, np.bool_):
        return bool(o)
    if isinstance(o, BaseException):
        return ("exc", base_exc_name(o), str(o))
    if isinstance(o, np.ndarray):
        if o.dtype == object:
            return ("objarr", o.shape, [canon(x, depth + 1) for x in o.ravel()])
        return np.array(o)
    if isinstance(o, pd.Series):
        return ("series", str(o.name), [str(i) for i in o.index], canon(o.to_numpy(copy=True), depth + 1))
    if isinstance(o, pd.DataFrame):
        return ("frame", [str(i) for i in o.index], [str(i) for i in o.columns],
                [canon(o.iloc[:, j].to_numpy(copy=True), depth + 1) for j in range(o.shape[1])])
    if isinstance(o, pd.Index):
        return ("index", [str(i) for i in o])
    if isinstance(o, dict):
        return ("dict", [(str(k), canon(v, depth + 1)) for k, v in o.items()])
    if isinstance(o, (list, tuple)):
        return ["seq"] + [canon(v, depth + 1) for v in o]
    if isinstance(o, (set, frozenset)):
        return ("set", sorted(map(str, o)))
    if dataclasses.is_dataclass(o) and not isinstance(o, type) or _pkg(o):
        d = dict(vars(o))
        return ("obj", type(o).__name__, [(k, canon(v, depth + 1)) for k, v in sorted(d.items())])
    if type(o).__module__.startswith("matplotlib") or type(o).__module__.startswith("mpl_toolkits"):
        return canon_plot(o)
    if callable(o):
        return ("callable",)
    return ("other", type(o).__name__)


def base_exc_name(e):
    n = type(e).__name__
    return n[8:] if n.startswith("Injected") else n


def canon_plot(o):
    try:
        from matplotlib.axes import Axes
        from matplotlib.figure import Figure
        if isinstance(o, Figure):
            return ("fig", [canon_plot(a) for a in o.axes])
        if isinstance(o, Axes):
            lines = [(ln.get_label() if not str(ln.get_label()).startswith("_") else "",
                      np.asarray(ln.get_xdata(), float), np.asarray(ln.get_ydata(), float)) for ln in o.lines]
            off = [np.asarray(c.get_offsets(), float) for c in o.collections if hasattr(c, "get_offsets")]
            return ("ax", o.get_title(), o.get_xlabel(), o.get_ylabel(), [list(x) for x in lines], off,
                    len(o.patches))
    except Exception as e:  # pragma: no cover
        return ("plot?", type(e).__name__)
    return ("other", type(o).__name__)


def diff(a, b, rtol=1e-6, atol=1e-9, path="result"):
    """First difference between two canonical trees, or None."""
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        if not (isinstance(a, np.ndarray) and isinstance(b, np.ndarray)):
            return f"{path}: {type(a).__name__} vs {type(b).__name__}"
        if a.shape != b.shape:
            return f"{path}: shape {a.shape} vs {b.shape}"
        if a.dtype.kind in "fciub" and b.dtype.kind in "fciub":
            if a.dtype.kind != b.dtype.kind:
                return f"{path}: dtype {a.dtype} vs {b.dtype}"
            x, y = np.asarray(a, float), np.asarray(b, float)
            if x.size == 0:
                return None
            fin = np.isfinite(x) & np.isfinite(y)
            same_nf = ((np.isnan(x) & np.isnan(y)) | (x == y))[~fin]
            if not np.all(same_nf):
                return f"{path}: non-finite entries differ"
            if not fin.any():
                return None
            scale = max(np.max(np.abs(x[fin])), np.max(np.abs(y[fin])))
            d = np.max(np.abs(x[fin] - y[fin]))
            if d > atol + rtol * scale:
                return f"{path}: max difference {d:.3g} at scale {scale:.3g}"
            return None
        return None if a.dtype.kind == b.dtype.kind and (a == b).all() else f"{path}: arrays differ"
    if isinstance(a, float) or isinstance(b, float):
        if not isinstance(a, (int, float)) or not isinstance(b, (int, float)) \
                or isinstance(a, bool) or isinstance(b, bool):
            return f"{path}: {a!r} vs {b!r}"
        if a == b or (a != a and b != b):
            return None
        if not abs(a - b) <= atol + rtol * max(abs(a), abs(b)):
            return f"{path}: {a!r} vs {b!r}"
        return None
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) == 3 and len(b) == 3 and _is(a[0], "exc") and _is(b[0], "exc"):
            return None if a[1] == b[1] and _msg(a[2]) == _msg(b[2]) else f"{path}: {a[1:]} vs {b[1:]}"
        if len(a) == 3 and len(b) == 3 and _is(a[0], "obj") and _is(b[0], "obj") and a[1] == b[1]:
            return _obj_diff(a[2], b[2], rtol, atol, f"{path}.{a[1]}")
        if len(a) != len(b):
            return f"{path}: length {len(a)} vs {len(b)}" + \
                (f" ({a[1:]!r:.80} vs {b[1:]!r:.80})" if not (_is(a[0], b[0]) if len(a) and len(b) else False) else "")
        for i, (x, y) in enumerate(zip(a, b)):
            d = diff(x, y, rtol, atol, f"{path}.{x[0] if isinstance(x, tuple) and x and isinstance(x[0], str) else i}")
            if d:
                return d
        return None
    return None if type(a) is type(b) and a == b else f"{path}: {a!r:.100} vs {b!r:.100}"


def _obj_diff(a, b, rtol, atol, path):
    """Attributes of two objects: a private one that only one of them has filled in is a memo, judged by what the object answers."""
    x, y = dict(a), dict(b)
    for k in sorted(set(x) | set(y)):
        if k.startswith("_") and (_unset(x.get(k)) or _unset(y.get(k))):
            continue
        if k not in x or k not in y:
            return f"{path}.{k}: only on one side"
        d = diff(x[k], y[k], rtol, atol, f"{path}.{k}")
        if d:
            return d
    return None


def _unset(t):
    return t is None or (isinstance(t, tuple) and t == ("dict", [])) or (isinstance(t, list) and t == ["seq"])


def _is(v, w):
    return isinstance(v, str) and isinstance(w, str) and v == w


def _msg(s):
    import re
    s = re.sub(r"0x[0-9a-f]+", "0x", s)
    return re.sub(r"[-+]?\d+\.?\d*(e[-+]?\d+)?", "#", s)


def tied(tree, rtol=1e-5):
    """A canonical tree in which frontiers whose neighbouring portfolios tie in risk (so that rounding decides their order) lack their metadata."""
    if isinstance(tree, (list, tuple)):
        if len(tree) == 3 and _is(tree[0], "obj") and _is(tree[1], "PortfolioFrontier"):
            d = dict(tree[2])
            k = np.sort(np.asarray(d.get("risks", ()), float).ravel())
            if len(k) > 1 and np.any(np.diff(k) <= rtol * np.abs(k).max()):
                return (tree[0], tree[1], [(n, None if n == "metadata" else v) for n, v in tree[2]])
            return tree
        return type(tree)(tied(v, rtol) for v in tree)
    return tree


# ---------------------------------------------------------------------------
def snap(o, done=None, stack=()):
    """Exact structural snapshot: nested tuples with array bytes hashed."""
    if done is None:
        done = {}
    if o is None or isinstance(o, (bool, int, float, str, bytes, complex)):
        return repr(o)
    if isinstance(o, (np.integer, np.floating, np.bool_)):
        return (type(o).__name__, repr(o))
    if id(o) in stack:
        return ("cycle", type(o).__name__)
    if id(o) in done:
        return done[id(o)][0]
    if len(stack) > 14:
        return "deep"
    r = _snap(o, lambda v: snap(v, done, stack + (id(o),)))
    done[id(o)] = (r, o)      # keeps temporaries alive, so that identities stay distinct
    return r


def _snap(o, sub):
    if isinstance(o, np.ndarray):
        if o.dtype == object:
            return ("objarr", o.shape, tuple(sub(x) for x in o.ravel()))
        return ("arr", o.dtype.str, o.shape, bool(o.flags.writeable),
                hashlib.blake2b(np.ascontiguousarray(o).tobytes(), digest_size=12).hexdigest())
    if isinstance(o, pd.Series):
        return ("series", sub(o.name), sub(o.index), str(o.dtype), sub(o.to_numpy(copy=True)), sub(dict(o.attrs)))
    if isinstance(o, pd.DataFrame):
        return ("frame", sub(o.index), sub(o.columns), tuple(str(t) for t in o.dtypes),
                tuple(sub(o.iloc[:, j].to_numpy(copy=True)) for j in range(o.shape[1])), sub(dict(o.attrs)))
    if isinstance(o, pd.Index):
        return ("index", str(o.dtype), tuple(map(str, o)), tuple(map(str, o.names)))
    if isinstance(o, dict):
        return ("dict", type(o).__name__, tuple((sub(k), sub(v)) for k, v in o.items()))
    if isinstance(o, (list, tuple)):
        return (type(o).__name__, tuple(sub(v) for v in o))
    if isinstance(o, (set, frozenset)):
        return ("set", tuple(sorted(map(repr, o))))
    if isinstance(o, types.FunctionType):
        if (o.__code__.co_filename or "").startswith(boot.PKG):
            cells = []
            for n, c in zip(o.__code__.co_freevars, o.__closure__ or ()):
                try:
                    cells.append(("_" + n, sub(c.cell_contents)))
                except ValueError:
                    cells.append(("_" + n, "empty"))
            return ("obj", o.__qualname__, tuple(cells) + (("defaults", sub(o.__defaults__)), ("kwdefaults", sub(o.__kwdefaults__)))
                    + tuple(("_" + str(k), sub(v)) for k, v in o.__dict__.items()))
        return ("cb", o.__qualname__)
    if isinstance(o, type) or isinstance(o, types.ModuleType) or isinstance(o, types.BuiltinFunctionType):
        return ("static", getattr(o, "__qualname__", str(o)))
    if isinstance(o, np.random.Generator):
        return "generator"
    if dataclasses.is_dataclass(o) or _pkg(o):
        return ("obj", type(o).__name__, tuple((k, sub(v)) for k, v in vars(o).items()))
    if type(o).__module__.startswith("matplotlib"):
        return ("mpl", type(o).__name__)
    if callable(o):
        return ("callable", type(o).__name__)
    return ("other", type(o).__name__)


def snap_diff(a, b, path="obj"):
    """Describe where two snapshots differ, or None.

    A private attribute (or closure variable) that was unset or an empty
    container and is now filled, or a private dictionary that only gained
    entries, is a memo: it is judged by what later calls answer, not here.
    """
    if type(a) is not type(b) or not isinstance(a, tuple):
        return None if a == b else f"{path}: {str(a)[:60]} -> {str(b)[:60]}"
    if a == b:
        return None
    if a and b and a[0] == "obj" and b[0] == "obj" and a[1] == b[1]:
        x, y = dict(a[2]), dict(b[2])
        for k in list(x) + [k for k in y if k not in x]:
            nm = f"{path}.{a[1]}.{k}"
            if k.startswith("_"):
                if _blank(x.get(k)):
                    continue
                if k in y and _grew(x[k], y[k]):
                    continue
            if k not in x or k not in y:
                return f"{nm}: {'added' if k in y else 'removed'}"
            d = snap_diff(x[k], y[k], nm)
            if d:
                return d
        return None
    if len(a) != len(b):
        return f"{path}: size {len(a)} -> {len(b)}"
    for i, (x, y) in enumerate(zip(a, b)):
        nm = x[0] if isinstance(x, tuple) and x and isinstance(x[0], str) and i else i
        d = snap_diff(x, y, f"{path}.{str(nm)[:30]}")
        if d:
            return d
    return None


def _blank(t):
    return t is None or t == "None" or (isinstance(t, tuple) and len(t) >= 2 and t[0] in ("dict", "list", "set") and t[-1] == ())


def _grew(x, y):
    """A dictionary that kept all it had."""
    if not (isinstance(x, tuple) and isinstance(y, tuple) and len(x) == 3 and len(y) == 3 and x[0] == y[0] == "dict"):
        return False
    return set(x[2]) <= set(y[2])
