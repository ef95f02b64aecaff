"""Shared pieces of the checks: settings snapshots, running operations, fault planning, result building."""
import copy
import hashlib
import logging
import os
import pickle
import random
import signal
import sys
import traceback
import warnings

import numpy as np

from . import boot, canon, faults, sched, seams, world

REAL = ["all of /repo/pyvallocation", "cvxopt (qp, lp via glpk, conelp)", "scipy optimisers (TNC, L-BFGS-B, HiGHS milp)",
        "numpy / scipy linear algebra", "pandas", "matplotlib (Agg)"]
STUBS = ["at the planned fault points only: the failing solver / factorisation / user function",
         "user callbacks are simulator-owned functions"]
ASSUME = ["single-threaded BLAS; CPython with the interpreter lock: the scheduler switches threads at library lines and "
          "dependency calls, not inside C calls",
          "faults are those dependencies can produce: documented failure statuses, exhausted iterations, exceptions"]


class Check:
    id = ""
    n_quick = 100
    n_thorough = 2000
    limits = (60, 120)
    bounded = False
    step_budget = 3_000_000
    self_check = 6
    pin = False              # one core per worker
    digest_is_property = False
    external = False         # reference outcomes come from a second interpreter
    ext = None
    rule = ""
    sig_measure = ""
    real = REAL
    stubs = STUBS
    assumptions = ASSUME
    level = "exploration"

    def cases(self, tier):
        return self.n_quick if tier == "quick" else self.n_thorough

    def shrink(self, case):
        return iter(())


class Result:
    """Accumulates what one simulated run observed."""

    def __init__(self):
        self.v = {}
        self.faults = {}
        self.counts = {}
        self.ops = {}
        self.trace = []
        self.sigs = []
        self.nontrivial = False
        self.h = hashlib.sha256()

    def bad(self, key, msg):
        self.v.setdefault(key, str(msg)[:600])

    def op(self, name, n=1):
        self.ops[name] = self.ops.get(name, 0) + n

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def fault(self, f):
        self.faults[f] = self.faults.get(f, 0) + 1
        self.nontrivial = True

    def take(self, sim):
        for f in sim.fired:
            self.fault(f)
        for k, n in sim.counts.items():
            if n:
                self.count(k, n)
        self.h.update(sim.digest().encode())
        if sim.switch_log:
            self.nontrivial = True

    def note(self, *ev):
        self.trace.append(" ".join(str(e) for e in ev)[:300])

    def sig(self, *a):
        self.sigs.append(a)
        self.h.update(repr(a).encode())

    def out(self):
        return {"violations": [{"key": k, "msg": m} for k, m in sorted(self.v.items())],
                "digest": self.h.hexdigest()[:16], "faults": self.faults, "counts": self.counts, "ops": self.ops,
                "sig": hashlib.sha256(repr(self.sigs).encode()).hexdigest()[:12], "nontrivial": self.nontrivial,
                "trace": self.trace[:200]}


# -- process-wide settings ---------------------------------------------------------
class _Cap(logging.Handler):
    def __init__(self):
        super().__init__(level=0)
        self.records = []

    def emit(self, record):
        self.records.append((record.name, record.levelno, record.getMessage()))


def settings():
    import random as pyrandom
    import signal

    import cvxopt
    import matplotlib
    import matplotlib.pyplot as plt
    import pandas as pd
    s = {}
    s["cvxopt.options"] = repr(sorted((str(k), repr(v)) for k, v in cvxopt.solvers.options.items()))
    try:
        s["cvxopt.printing"] = repr(sorted(cvxopt.printing.options.items()))
    except Exception:
        pass
    s["numpy.errstate"] = repr(sorted(np.geterr().items()))
    s["numpy.errcall"] = repr(np.geterrcall())
    s["numpy.printoptions"] = repr(sorted((k, str(v)) for k, v in np.get_printoptions().items()))
    s["warnings.filters"] = repr([(f[0], getattr(f[1], "pattern", f[1]), f[2].__name__, getattr(f[3], "pattern", f[3]), f[4])
                                  for f in warnings.filters])
    s["warnings.showwarning"] = id(warnings.showwarning)
    s["random.state"] = hashlib.md5(repr(pyrandom.getstate()).encode()).hexdigest()
    st = np.random.get_state()
    s["numpy.random.state"] = hashlib.md5(repr((st[0], st[1].tolist(), st[2:])).encode()).hexdigest()
    try:
        from pandas._config import config as pc
        s["pandas.options"] = repr(_flat(pc._global_config))
    except Exception:
        s["pandas.options"] = repr([pd.get_option(o) for o in ("display.max_rows", "display.precision", "mode.sim_interactive")])
    s["matplotlib.rcParams"] = hashlib.md5(repr(sorted((k, str(v)) for k, v in matplotlib.rcParams.items()
                                                       if k != "backend")).encode()).hexdigest()
    s["matplotlib.backend"] = matplotlib.get_backend()
    s["matplotlib.interactive"] = plt.isinteractive()
    s["matplotlib.figures"] = repr(plt.get_fignums())
    s["logging"] = repr([(n, _log(g)) for n, g in sorted(logging.root.manager.loggerDict.items())
                         if isinstance(g, logging.Logger) and _log(g) != (0, [], False, True, [])])
    s["logging.root"] = repr((_log(logging.root), logging.root.manager.disable, logging.raiseExceptions,
                              logging.getLoggerClass().__name__, len(logging._handlers)))
    s["environ"] = repr(sorted(os.environ.items()))
    s["cwd"] = os.getcwd()
    s["signals"] = repr([str(signal.getsignal(g)) for g in (signal.SIGINT, signal.SIGTERM, signal.SIGALRM, signal.SIGUSR1)])
    s["recursionlimit"] = sys.getrecursionlimit()
    s["switchinterval"] = sys.getswitchinterval()
    s["stdio"] = (id(sys.stdout), id(sys.stderr), id(sys.stdin))
    s["hooks"] = (id(sys.excepthook), id(sys.displayhook))
    import decimal
    import gc
    import locale
    s["decimal"] = repr((decimal.getcontext().prec, decimal.getcontext().rounding))
    s["gc"] = repr((gc.isenabled(), gc.get_threshold()))
    try:
        s["locale"] = locale.setlocale(locale.LC_ALL)
    except Exception:
        pass
    s["sys.path"] = repr(sys.path)
    return s


def _flat(d):
    return [(k, _flat(v) if isinstance(v, dict) else repr(v)) for k, v in sorted(d.items())]


def _log(lg):
    return (lg.level, [(type(h).__name__, h.level, id(h)) for h in lg.handlers], lg.disabled, lg.propagate,
            [id(f) for f in lg.filters])


def settings_diff(a, b):
    return sorted(k for k in a if a[k] != b.get(k)) + sorted(k for k in b if k not in a)


def odd_settings(r):
    """Move the process to unusual but legal settings (r: random.Random)."""
    import random as pyrandom

    import cvxopt
    import matplotlib
    import pandas as pd
    if r.random() < 0.7:
        cvxopt.solvers.options["maxiters"] = r.choice([60, 80, 150])
    if r.random() < 0.5:
        cvxopt.solvers.options["abstol"] = r.choice([1e-8, 1e-7])
    if r.random() < 0.3:
        cvxopt.solvers.options["show_progress"] = True
    if r.random() < 0.7:
        np.seterr(divide=r.choice(["ignore", "warn", "raise", "print"]), over=r.choice(["ignore", "warn", "raise"]),
                  invalid=r.choice(["ignore", "warn"]), under=r.choice(["ignore", "warn"]))
    np.set_printoptions(precision=r.choice([3, 5, 8]), suppress=r.random() < 0.5)
    if r.random() < 0.7:
        warnings.simplefilter(r.choice(["ignore", "always", "default", "once", "error"]))
    if r.random() < 0.5:
        warnings.filterwarnings("ignore", message="something else")
    pyrandom.seed(r.random())
    np.random.seed(r.randrange(1 << 31))
    pd.set_option("display.max_rows", r.choice([7, 20, 60]))
    pd.set_option("display.precision", r.choice([3, 6]))
    matplotlib.rcParams["lines.linewidth"] = r.choice([1.0, 2.5])
    matplotlib.rcParams["axes.grid"] = r.random() < 0.5
    lg = logging.getLogger("pyvallocation")
    cap = _Cap()
    if r.random() < 0.7:
        lg.addHandler(cap)
        lg.setLevel(r.choice([logging.DEBUG, logging.INFO, logging.WARNING, logging.ERROR]))
    os.environ["VERIF_MARK"] = str(r.random())
    return cap


# -- running operations --------------------------------------------------------------
def plan_pick(r, seam_list, k=1):
    """Choose up to k fault points among the seams a clean run passed."""
    plan = {}
    if not seam_list:
        return plan
    for _ in range(k):
        cls, n, name = seam_list[int(r.random() * len(seam_list))]
        plan[(cls, n)] = faults.gen_action(r, cls.split(":")[0])
    return plan


def keyed(plan, key):
    return {(key, cls, n): a for (cls, n), a in plan.items()}


def guarded(fn):
    """('ok', value) or ('exc', exception); simulator aborts pass through."""
    try:
        return ("ok", fn())
    except (sched.SimBudget, sched.Deadlock, SystemExit):
        raise
    except BaseException as e:
        return ("exc", e)


def call(sim, key, op, args):
    """Run one operation under `sim`; canonical outcome."""
    sim.begin_op(key)
    k, v = guarded(lambda: op.run(args))
    return (k, canon.canon(v))


def same(a, b, **kw):
    """None if two canonical outcomes agree, else the difference."""
    if a[0] != b[0]:
        return f"{_short(a)} vs {_short(b)}"
    return canon.diff(a[1], b[1], **kw)


def _short(o):
    return "returned" if o[0] == "ok" else f"raised {o[1][1]}({o[1][2][:80]!r})"


def is_injected(e):
    return isinstance(e, faults.InjectedMixin)


def prepare(x, spec):
    """Arguments (built outside the fault plan) for an operation specification."""
    op = world.OPS[spec["op"]]
    cb = world.Callbacks()
    act, seams.ACTIVE = seams.ACTIVE, None
    try:
        return op, op.args(x, spec["p"], cb), cb
    finally:
        seams.ACTIVE = act


def try_prepare(x, spec):
    try:
        return prepare(x, spec)
    except Exception:
        return None


def shrink_ops(case, field="ops"):
    """Drop operations one at a time; then simplify the data."""
    ops = case.get(field) or []
    if len(ops) > 1:
        for i in range(len(ops)):
            c = copy.deepcopy(case)
            del c[field][i]
            yield c
    if "cfg" in case:
        for cfg in world.shrink_cfg(case["cfg"]):
            c = copy.deepcopy(case)
            c["cfg"] = cfg
            yield c


def rnd(*a):
    return random.Random("/".join(map(str, a)))


def isolated(fn):
    """Value of fn() computed in a forked child: whatever it does to process state stays there."""
    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(rd)
            try:
                out = pickle.dumps(("ok", fn()))
            except BaseException as e:
                out = pickle.dumps(("err", "".join(traceback.format_exception(e))[-2000:]))
            with os.fdopen(wr, "wb") as f:
                f.write(out)
        finally:
            os._exit(0)
    os.close(wr)
    with os.fdopen(rd, "rb") as f:
        data = f.read()
    _, status = os.waitpid(pid, 0)
    if not data:
        if os.WIFSIGNALED(status) and os.WTERMSIG(status) in (signal.SIGXCPU, signal.SIGKILL):
            os.kill(os.getpid(), signal.SIGXCPU)     # out of time: so is the case
        if os.WIFSIGNALED(status) and os.WTERMSIG(status) in boot.DEATHS:
            raise boot.ProcessDied(os.WTERMSIG(status))
        raise RuntimeError("reference child gave no result")
    k, v = pickle.loads(data)
    if k == "err":
        raise RuntimeError("reference child failed:\n" + v)
    return v


def mangle(args, r):
    """A copy of the arguments with one of them made invalid (input the library should reject)."""
    import pandas as pd
    a = dict(args)
    keys = [k for k, v in a.items() if isinstance(v, (np.ndarray, pd.Series, pd.DataFrame, dict, list)) and len(v)]
    if not keys:
        return None, None
    k = r.choice(sorted(keys))
    v = a[k]
    if isinstance(v, dict):
        sub, s = mangle(v, r)
        if sub is None:
            return None, None
        a[k] = sub
        return a, f"{k}.{s}"
    how = r.choice(["nan", "short", "inf", "str", "neg"])
    if isinstance(v, list):
        a[k] = v[:-1] if how == "short" else list(v) + ["bogus"]
    elif isinstance(v, np.ndarray):
        if v.dtype.kind not in "fi":
            return None, None
        w = np.array(v, dtype=float)
        if how == "short":
            w = w[:-1]
        elif how == "str":
            w = w.astype(object)
            w.flat[0] = "bogus"
        else:
            w.flat[r.randrange(w.size)] = {"nan": np.nan, "inf": np.inf, "neg": -1e6}[how]
        a[k] = w
    else:
        w = v.copy()
        if how == "short":
            w = w.iloc[:-1]
        elif how == "str":
            w = w.astype(object)
            w.iloc[(0,) * w.ndim] = "bogus"
        else:
            try:
                w.iloc[(r.randrange(w.shape[0]),) + ((r.randrange(w.shape[1]),) if w.ndim == 2 else ())] = \
                    {"nan": np.nan, "inf": np.inf, "neg": -1e6}[how]
            except Exception:
                return None, None
        a[k] = w
    return a, f"{k}:{how}"
