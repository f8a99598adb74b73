"""Snapshot of process-wide settings, and unusual ones to start from."""
import gc
import locale
import logging
import os
import signal
import sys
import threading
import warnings

from .boot import np, plt


_SEEN = {}


def _name(f):
    """Stable name for a function, so that messages do not contain addresses."""
    k = _SEEN.setdefault(id(f), (len(_SEEN), f))[0]
    return "%s#%d" % (getattr(f, "__qualname__", type(f).__name__), k)


def _filt():
    out = []
    for f in warnings.filters:
        out.append(tuple(x if isinstance(x, (str, int, type(None)))
                         else getattr(x, "pattern", None) or
                         getattr(x, "__name__", repr(x)) for x in f))
    return out


def thread_snap():
    """Settings that NumPy keeps per thread."""
    return {"numpy error state": dict(np.geterr()),
            "numpy error callback": id(np.geterrcall()),
            "numpy buffer size": np.getbufsize()}


def snap():
    d = {
        "warning filters": _filt(),
        "warnings.showwarning": id(warnings.showwarning),
        "warnings.formatwarning": id(warnings.formatwarning),
        "warnings display": _name(getattr(warnings, "_showwarnmsg_impl",
                                               None)),
        "warnings default action": warnings.defaultaction,
        "numpy print options": repr(sorted(np.get_printoptions().items(),
                                           key=lambda x: x[0])),
        "array display": repr(np.array([1 / 3., 1e9])) + str(np.ones(1)),
        "traceback limit": getattr(sys, "tracebacklimit", None),
        "plotting defaults": {k: tuple(v) if isinstance(v, list) else v
                              for k, v in dict.items(plt.rcParams)},
        "plot backend": plt.get_backend(),
        "interactive plotting": plt.isinteractive(),
        "environment": dict(os.environ),
        "working directory": os.getcwd(),
        "streams": (id(sys.stdout), id(sys.stderr), id(sys.stdin)),
        "hooks": (id(sys.excepthook), id(sys.displayhook),
                  id(threading.excepthook)),
        "recursion limit": sys.getrecursionlimit(),
        "switch interval": sys.getswitchinterval(),
        "gc": (gc.isenabled(), gc.get_threshold()),
        "logging": (logging.getLogger().level, logging.root.manager.disable,
                    len(logging.getLogger().handlers)),
        "locale": locale.setlocale(locale.LC_ALL),
        "int limit": sys.get_int_max_str_digits(),
    }
    sig = {}
    for s in signal.valid_signals():
        try:
            h = signal.getsignal(s)
        except (ValueError, OSError):
            continue
        sig[int(s)] = h if isinstance(h, int) else id(h)
    d["signal handlers"] = sig
    m = os.umask(0)
    os.umask(m)
    d["umask"] = m
    d.update(thread_snap())
    return d


def compare(a, b):
    for k in a:
        if k in b and a[k] != b[k]:
            x, y = a[k], b[k]
            if isinstance(x, dict):
                ks = [q for q in sorted(set(x) | set(y), key=str)
                      if x.get(q) != y.get(q)]
                return k, "%s: %s was %r, is %r" % (
                    k, ks[0], x.get(ks[0]), y.get(ks[0]))
            return k, "%s: %s -> %s" % (k, str(x)[:150], str(y)[:150])
    return None


THREADS = ["OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"]
STARTS = ["plain", "plain", "default", "error", "once", "numpy", "plots",
          "streams", "all"]


def start(kind):
    """Put the process in an unusual but legal state."""
    warnings.resetwarnings()
    warnings.simplefilter("default")
    for k in THREADS:
        # have been read already
        if kind in ("default", "streams"):
            os.environ.pop(k, None)
        else:
            os.environ[k] = "3"
    if kind in ("default", "all"):
        warnings.filterwarnings("ignore", message="nothing like this")
        logging.getLogger().setLevel(logging.INFO)
        sys.tracebacklimit = 700
        gc.disable()
    if kind == "error":
        sys.setrecursionlimit(1500)
        sys.setswitchinterval(.004)
        os.umask(0o027)
        warnings.resetwarnings()
        warnings.simplefilter("error", RuntimeWarning)
    if kind == "once":
        os.chdir("/")
        gc.set_threshold(900, 12, 11)
        sys.set_int_max_str_digits(5000)
        warnings.resetwarnings()
        warnings.filterwarnings("once", category=UserWarning)
        warnings.simplefilter("always", append=True)
    if kind in ("numpy", "all"):
        np.seterr(divide="ignore", over="ignore", invalid="ignore",
                  under="ignore")
        np.set_printoptions(precision=3, suppress=True, threshold=5)
        np.setbufsize(4096)
    if kind in ("plots", "all"):
        plt.rcParams["lines.linewidth"] = 3.5
        plt.rcParams["figure.figsize"] = [5., 4.]
        plt.rcParams["axes.grid"] = True
        plt.ion()
        signal.signal(signal.SIGINT, lambda *a: None)
    if kind == "streams":
        sys.stdout = open(os.devnull, "w")
        sys.stderr = open(os.devnull, "w")
        signal.signal(signal.SIGUSR1, lambda *a: None)
        os.environ["SIM_MARK"] = "1"
