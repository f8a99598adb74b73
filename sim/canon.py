"""Canonical form of values, comparison, and snapshots of arguments."""
import numpy as np

from .boot import harold

State, Transfer = harold.State, harold.Transfer


def _try(f):
    try:
        return canon(f())
    except Exception as e:
        return ("exc", type(e).__name__)


def model(g):
    """Everything directly observable on a model."""
    d = {"type": type(g).__name__}
    for k in ("SamplingPeriod", "SamplingSet", "NumberOfInputs",
              "NumberOfOutputs", "shape", "DiscretizedWith",
              "DiscretizationMatrix", "PrewarpFrequency"):
        d[k] = _try(lambda: getattr(g, k))
    if isinstance(g, State):
        for k in ("a", "b", "c", "d", "NumberOfStates"):
            d[k] = _try(lambda: getattr(g, k))
    else:
        for k in ("num", "den"):
            d[k] = _try(lambda: getattr(g, k))
    for k in ("poles", "zeros"):
        v = _try(lambda: np.asarray(getattr(g, k)))
        d[k] = ("roots",) + v[1:] if v[0] == "arr" else v
    return ("model", d)


def canon(v):
    if v is None:
        return ("none",)
    if isinstance(v, (State, Transfer)):
        return model(v)
    if isinstance(v, np.ndarray):
        if v.dtype == object:
            return ("obj", v.shape, [canon(x) for x in v.ravel().tolist()])
        return ("arr", v.shape, np.array(v, copy=True))
    if isinstance(v, (bool, np.bool_)):
        return ("bool", bool(v))
    if isinstance(v, (int, float, complex, np.number)):
        return ("arr", (), np.array(v))
    if isinstance(v, str):
        return ("str", v)
    if isinstance(v, (list, tuple)):
        return ("seq", [canon(x) for x in v])
    if isinstance(v, dict):
        return ("dict", {str(k): canon(x) for k, x in v.items()})
    if isinstance(v, slice):
        return ("str", repr(v))
    if isinstance(v, BaseException):
        return ("exc", type(v).__name__)
    return ("other", type(v).__name__)


def outcome(ok, v):
    return canon(v) if ok else ("exc", type(v).__name__)


def _close(a, b, rtol, atol):
    if a.shape != b.shape:
        return False
    if a.size == 0:
        return True
    if rtol == 0:
        return np.array_equal(a, b, equal_nan=a.dtype.kind in "fc" and
                              b.dtype.kind in "fc")
    if a.dtype.kind not in "fciub" or b.dtype.kind not in "fciub":
        return np.array_equal(a, b)
    a = a.astype(complex)
    b = b.astype(complex)
    fa, fb = np.isfinite(a), np.isfinite(b)
    if not np.array_equal(fa, fb):
        return False
    if not fa.all():
        x, y = a[~fa], b[~fb]
        if not (np.array_equal(np.isnan(x), np.isnan(y))):
            return False
        a, b = a[fa], b[fb]
        if a.size == 0:
            return True
    sc = max(np.abs(a).max(), np.abs(b).max())
    return bool(np.all(np.abs(a - b) <= atol + rtol * sc))


def _roots(a, b, rtol, atol):
    a = np.ravel(a)
    b = np.ravel(b)
    if a.size != b.size:
        return False
    if _close(a, b, rtol, atol):
        return True
    if rtol == 0 or not (np.isfinite(a).all() and np.isfinite(b).all()):
        return False
    left = list(b)
    for x in a:
        j = min(range(len(left)), key=lambda i: abs(left[i] - x))
        if abs(left[j] - x) > atol + rtol * max(1., abs(x)):
            return False
        left.pop(j)
    return True


def diff(a, b, rtol=0., atol=0., path=""):
    """None if equal, else a description of the first difference."""
    if a[0] != b[0]:
        return "%s: %s vs %s" % (path or "value", brief(a), brief(b))
    t = a[0]
    if t == "arr":
        if not _close(a[2], b[2], rtol, atol):
            return "%s: %s vs %s" % (path or "value", brief(a), brief(b))
    elif t == "roots":
        if not _roots(a[2], b[2], max(rtol, 0), atol):
            return "%s: %s vs %s" % (path, brief(a), brief(b))
    elif t in ("seq", "obj"):
        x, y = a[-1], b[-1]
        if t == "obj" and a[1] != b[1]:
            return "%s: shapes %s vs %s" % (path, a[1], b[1])
        if len(x) != len(y):
            return "%s: lengths %d vs %d" % (path, len(x), len(y))
        for i, (u, v) in enumerate(zip(x, y)):
            r = diff(u, v, rtol, atol, "%s[%d]" % (path, i))
            if r:
                return r
    elif t in ("dict", "model"):
        x, y = a[1], b[1]
        if set(x) != set(y):
            return "%s: keys %s vs %s" % (path, sorted(x), sorted(y))
        for k in x:
            if t == "model" and k == "type":
                if x[k] != y[k]:
                    return "%s: %s vs %s" % (path, x[k], y[k])
                continue
            r = diff(x[k], y[k], rtol, atol, "%s.%s" % (path, k))
            if r:
                return r
    elif a[1:] != b[1:]:
        return "%s: %s vs %s" % (path or "value", brief(a), brief(b))
    return None


def brief(c, n=160):
    if c[0] in ("arr", "roots"):
        with np.printoptions(precision=6, threshold=12):
            s = np.array2string(c[2]).replace("\n", " ")
    elif c[0] == "model":
        s = "%s model" % c[1]["type"]
    elif c[0] == "exc":
        s = "raises " + c[1]
    elif c[0] == "seq":
        s = "[" + ", ".join(brief(x, 40) for x in c[1][:4]) + "]"
    else:
        s = str(c[1:] if len(c) > 1 else c[0])
    return s[:n]


# -------------------------------------------------------------- snapshots
def snap(v, depth=0):
    """Bit-exact snapshot of an argument, including the buffers behind views.

    Models are looked at through their public attributes only, so a model may
    cache things privately.
    """
    if isinstance(v, np.ndarray):
        base = v
        while isinstance(base.base, np.ndarray):
            base = base.base
        if v.dtype == object:
            return ("obj", v.shape, [snap(x) for x in v.ravel().tolist()])
        return ("nd", v.shape, v.strides, str(v.dtype), v.tobytes(),
                base.tobytes())
    if isinstance(v, (State, Transfer)):
        return ("m", freeze(model(v)))
    if isinstance(v, (list, tuple)):
        return (type(v).__name__, [snap(x) for x in v])
    if isinstance(v, dict):
        return ("dict", {k: snap(x) for k, x in v.items()})
    return ("v", repr(v))


def freeze(c):
    """Bit-exact hashable form of a canonical value."""
    t = c[0]
    if t in ("arr", "roots"):
        return (t, c[1], str(c[2].dtype), c[2].tobytes())
    if t == "seq":
        return (t,) + tuple(freeze(x) for x in c[1])
    if t == "obj":
        return (t, c[1]) + tuple(freeze(x) for x in c[2])
    if t == "dict":
        return (t,) + tuple((k, freeze(x)) for k, x in sorted(c[1].items()))
    if t == "model":
        return (t,) + tuple((k, x if k == "type" else freeze(x))
                            for k, x in c[1].items())
    return c


def snapdiff(a, b, path="arg"):
    if a == b:
        return None
    if a[0] == b[0]:
        if a[0] in ("list", "tuple") and len(a[1]) == len(b[1]):
            for i, (x, y) in enumerate(zip(a[1], b[1])):
                r = snapdiff(x, y, "%s[%d]" % (path, i))
                if r:
                    return r
        if a[0] == "dict":
            for k in sorted(set(a[1]) | set(b[1])):
                if k not in a[1]:
                    return "%s: key %r was added" % (path, k)
                if k not in b[1]:
                    return "%s: key %r was removed" % (path, k)
                r = snapdiff(a[1][k], b[1][k], "%s[%r]" % (path, k))
                if r:
                    return r
        if a[0] == "m":
            for x, y in zip(a[1][1:], b[1][1:]):
                if x != y:
                    return "%s: model attribute %s changed" % (path, x[0])
        if a[0] == "nd":
            x = np.frombuffer(a[4], dtype=a[3])
            y = np.frombuffer(b[4], dtype=b[3])
            if x.shape == y.shape:
                return "%s: array %s became %s" % (
                    path, brief(("arr", (), x), 70), brief(("arr", (), y), 70))
    return "%s changed" % path
