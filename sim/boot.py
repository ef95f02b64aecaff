"""Process set-up: environment, third-party imports, seams, then the library."""
import os
import signal
import sys

REPO = os.path.realpath(os.environ.get("VERIF_REPO", "/repo"))
PKG = os.path.join(REPO, "pyvallocation") + os.sep
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

_ENV = {
    "PYTHONDONTWRITEBYTECODE": "1",
    "MPLBACKEND": "Agg",
    "OPENBLAS_NUM_THREADS": "1",
    "OMP_NUM_THREADS": "1",
    "MKL_NUM_THREADS": "1",
}

LIB = None  # the imported package


def boot():
    """Import everything once.  Seams go in before the library is imported."""
    global LIB
    if LIB is not None:
        return LIB
    os.environ.update(_ENV)
    if "MPLCONFIGDIR" not in os.environ:
        import atexit, shutil, tempfile
        d = tempfile.mkdtemp(prefix="verif-mpl-")
        os.environ["MPLCONFIGDIR"] = d
        pid = os.getpid()
        atexit.register(lambda: os.getpid() == pid and shutil.rmtree(d, ignore_errors=True))
    sys.dont_write_bytecode = True
    sys.path.insert(0, REPO)
    import logging
    import warnings

    import numpy  # noqa
    import pandas  # noqa
    import scipy.linalg  # noqa
    import scipy.optimize  # noqa
    import scipy.stats  # noqa
    import scipy.special  # noqa
    import cvxopt  # noqa
    import cvxopt.solvers
    try:
        import matplotlib
        matplotlib.use("Agg")
        import matplotlib.pyplot  # noqa
        import mpl_toolkits.mplot3d  # noqa
    except Exception:  # pragma: no cover
        pass

    logging.lastResort = None
    warnings.simplefilter("ignore")

    from . import seams
    seams.install()

    import importlib
    import pkgutil
    LIB = importlib.import_module("pyvallocation")
    if not os.path.realpath(LIB.__file__).startswith(PKG):
        raise RuntimeError(f"wrong copy of the library: {LIB.__file__}")
    for m in pkgutil.walk_packages(LIB.__path__, "pyvallocation."):
        importlib.import_module(m.name)
    _warm()
    return LIB


def _warm():
    """Touch lazily initialised third-party state so that it never looks like a change."""
    import numpy as np
    import pandas as pd
    import scipy.optimize as so
    pd.concat([pd.Series([1.0]), pd.Series([2.0])], axis=1).describe()
    so.minimize(lambda x: float(x @ x), np.ones(1), method="TNC", bounds=so.Bounds([-1], [1]))
    import matplotlib.pyplot as plt
    fig, ax = plt.subplots()
    ax.plot([0, 1], [0, 1])
    fig.canvas.draw()
    plt.close(fig)
    fig = plt.figure()
    fig.add_subplot(111, projection="3d")
    plt.close(fig)


def in_repo(filename):
    return filename.startswith(PKG)


DEATHS = (signal.SIGABRT, signal.SIGSEGV, signal.SIGBUS, signal.SIGFPE, signal.SIGILL)


class ProcessDied(RuntimeError):
    """The code under test took its whole process down."""

    def __init__(self, sig):
        super().__init__(sig if isinstance(sig, str) else f"process died of {signal.Signals(sig).name}")
