"""Seams: every solver / linear-algebra call the library makes passes through here.

A seam is inert unless a Sim is active in the process and the caller is library code.
"""
import functools
import sys
import threading

from . import boot

ACTIVE = None            # the active Sim (sched.Sim) of this process
_REAL_LOCK = threading.Lock
_REAL_RLOCK = threading.RLock

# seam classes -> (module path, attribute names)
_SEAMS = {
    "solver": [("cvxopt.solvers", ["qp", "lp", "conelp", "coneqp", "socp", "sdp", "cp", "cpl"])],
    "minimize": [("scipy.optimize", ["minimize", "minimize_scalar", "linprog", "root", "brentq",
                                     "root_scalar", "fsolve"])],
    "milp": [("scipy.optimize", ["milp"])],
    "linalg": [
        ("numpy.linalg", ["cholesky", "inv", "pinv", "eigh", "eigvalsh", "eig", "eigvals", "solve", "svd",
                          "slogdet", "det", "lstsq", "matrix_rank", "cond", "qr"]),
        ("scipy.linalg", ["cholesky", "inv", "pinv", "eigh", "eigvalsh", "solve", "svd", "cho_solve",
                          "cho_factor", "solve_triangular", "sqrtm", "lstsq", "qr"]),
    ],
}
ORIG = {}


def _wrap(cls, name, orig):
    @functools.wraps(orig)
    def seam(*a, **k):
        sim = ACTIVE
        if sim is None:
            return orig(*a, **k)
        if not sys._getframe(1).f_code.co_filename.startswith(boot.PKG):
            return orig(*a, **k)
        return sim.on_seam(cls, name, orig, a, k)
    seam.__verif_orig__ = orig
    return seam


class SimLock:
    """Cooperative lock handed to library code that creates a threading lock."""

    def __init__(self, reentrant=False):
        self._re = reentrant
        self._owner = None
        self._n = 0
        self._real = _REAL_RLOCK() if reentrant else _REAL_LOCK()

    def acquire(self, blocking=True, timeout=-1):
        sim = ACTIVE
        me = threading.get_ident()
        while True:
            if self._n == 0 or (self._re and self._owner == me):
                self._owner = me
                self._n += 1
                return True
            if not blocking:
                return False
            if sim is None:
                raise RuntimeError("SimLock: would block outside a simulation (self-deadlock)")
            sim.block_on(self)

    def release(self):
        if self._n == 0:
            raise RuntimeError("release unlocked lock")
        self._n -= 1
        if self._n == 0:
            self._owner = None

    def locked(self):
        return self._n > 0

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *exc):
        self.release()


def _lock_factory(real, reentrant):
    def factory(*a, **k):
        if sys._getframe(1).f_code.co_filename.startswith(boot.PKG):
            return SimLock(reentrant)
        return real(*a, **k)
    return factory


def _clock(name, orig):
    import time

    @functools.wraps(orig)
    def read(*a):
        sim = ACTIVE
        if sim is None or not sys._getframe(1).f_code.co_filename.startswith(boot.PKG):
            return orig(*a)
        if name == "sleep":
            sim.clock += float(a[0])
            return None
        v = sim.read_clock()
        return int(v * 1e9) if name.endswith("_ns") else v
    setattr(time, name, read)


def install():
    import importlib
    import time
    for n in ("time", "time_ns", "monotonic", "monotonic_ns", "perf_counter", "perf_counter_ns", "process_time",
              "sleep"):
        _clock(n, getattr(time, n))
    for cls, mods in _SEAMS.items():
        for mod, names in mods:
            m = importlib.import_module(mod)
            for n in names:
                f = getattr(m, n, None)
                if f is None or not callable(f) or hasattr(f, "__verif_orig__"):
                    continue
                ORIG[(mod, n)] = f
                setattr(m, n, _wrap(cls, f"{mod}.{n}", f))
    threading.Lock = _lock_factory(_REAL_LOCK, False)
    threading.RLock = _lock_factory(_REAL_RLOCK, True)
