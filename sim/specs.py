"""JSON descriptions of arguments, their construction, and generators."""
import math

import numpy as np

from . import boot
from .boot import harold

H = harold


class Shared:
    """Objects of a case, built once and referred to by index."""

    def __init__(self, specs):
        self.specs = specs
        self.objs = [None] * len(specs)
        self.built = [False] * len(specs)

    def get(self, i):
        if not self.built[i]:
            self.objs[i] = build(self.specs[i], self)
            self.built[i] = True
        return self.objs[i]

    def build_all(self):
        for i in range(len(self.specs)):
            self.get(i)
        return self


_DT = {"f": float, "i": int, "c": complex, "o": object, "s": np.float32}


def _num(x):
    if isinstance(x, dict):
        if "re" in x:
            return complex(x["re"], x["im"])
        return float(x["f"])
    if isinstance(x, list):
        return [_num(v) for v in x]
    return x


def build(s, shared=None):
    """Build the object described by spec s."""
    if isinstance(s, (int, float, str, bool)) or s is None:
        return s
    if isinstance(s, list):
        return [build(x, shared) for x in s]
    t = s["t"]
    if t == "ref":
        return shared.get(s["i"])
    if t == "list":
        return [build(x, shared) for x in s["v"]]
    if t == "tuple":
        return tuple(build(x, shared) for x in s["v"])
    if t == "dict":
        return {k: build(v, shared) for k, v in s["v"].items()}
    if t == "cx":
        return complex(s["re"], s["im"])
    if t == "fl":
        return float(s["v"])
    if t == "slice":
        return slice(*s["v"])
    if t == "arr":
        return build_array(s)
    if t == "np":
        return np.float64(s["v"])
    if t == "npi":
        return np.int64(s["v"])
    if t == "cycler":
        return boot.plt.cycler(**s["v"])
    if t == "State":
        k = {} if s.get("dt") is None else {"dt": s["dt"]}
        if "a" not in s:
            return H.State(_num(s["d"]), **k)
        if "lay" in s:
            return H.State(*[build_array({"v": s[x], "lay": s["lay"]})
                             for x in "abcd"], **k)
        return H.State(_num(s["a"]), _num(s["b"]), _num(s["c"]),
                       _num(s["d"]), **k)
    if t == "Transfer":
        k = {} if s.get("dt") is None else {"dt": s["dt"]}
        return H.Transfer(_num(s["num"]), _num(s["den"]), **k)
    raise KeyError(t)


def build_array(s):
    v = _num(s["v"])
    lay = s.get("lay", "C")
    if lay == "L":
        return v
    a = np.array(v, dtype=_DT[s.get("dtype", "f")])
    if "shape" in s:
        a = a.reshape(s["shape"])
    if lay == "F":
        return np.asfortranarray(a)
    if lay == "T":          # transposed view of a C array
        return np.ascontiguousarray(a.T).T
    if lay == "S":          # strided view into a bigger buffer
        big = np.full([2 * k + 1 for k in a.shape], 7., dtype=a.dtype)
        sl = tuple(slice(1, None, 2) for _ in a.shape)
        big[sl] = a
        return big[sl]
    if lay == "V":          # leading block of a bigger Fortran buffer
        big = np.full([k + 1 for k in a.shape], 7., dtype=a.dtype, order="F")
        sl = tuple(slice(0, k) for k in a.shape)
        big[sl] = a
        return big[sl]
    return a


# --------------------------------------------------------------- generators
def rnd(x, nd=4):
    return [rnd(v, nd) for v in x] if isinstance(x, (list, tuple)) \
        else round(float(x), nd)


def gmat(r, p, m, lo=-2., hi=2., nd=3):
    return [[round(r.uniform(lo, hi), nd) for _ in range(m)]
            for _ in range(p)]


def gvec(r, n, lo=-2., hi=2., nd=3):
    return [round(r.uniform(lo, hi), nd) for _ in range(n)]


def arr(v, dtype="f", lay="C", **k):
    return dict({"t": "arr", "v": v, "dtype": dtype, "lay": lay}, **k)


def glay(r):
    return r.choice(["C", "C", "F", "T", "S", "V", "L"])


def orth(r, n):
    q, rr = np.linalg.qr(np.array([[r.gauss(0, 1) for _ in range(n)]
                                   for _ in range(n)]))
    return q * np.sign(np.diag(rr))


def gsim(r, n):
    """Well conditioned random similarity."""
    t = orth(r, n)
    return t * np.array([r.uniform(.6, 1.6) for _ in range(n)])


def gmodal(r, n, dt=None, kind="stable"):
    """Block diagonal matrix with well separated eigenvalues."""
    a = np.zeros((n, n))
    i = 0
    slot = r.randrange(3)
    while i < n:
        slot += r.choice([1, 1, 2])
        unst = kind == "unstable" or (kind == "mixed" and r.random() < .4)
        if n - i >= 2 and r.random() < .4:
            sg, w = .3 + .35 * slot, .5 + .6 * slot
            if dt:
                rad = .95 - .11 * (slot % 8)
                if unst:
                    rad = 1 / rad
                th = .4 + .3 * (slot % 8)
                re, im = rad * math.cos(th), rad * math.sin(th)
            else:
                re, im = (sg if unst else -sg), w
            a[i:i + 2, i:i + 2] = [[re, im], [-im, re]]
            i += 2
        else:
            if dt:
                v = (.92 - .13 * (slot % 7)) * (1 if slot % 2 else -1)
                v += .01 * (slot // 7)
                if abs(v) < .05:
                    v = .07
                a[i, i] = 1 / v if unst else v
            else:
                v = .25 + .45 * slot
                a[i, i] = v if unst else -v
            i += 1
    return a


DTS = [None, None, None, .1, .5, 1., 2.]


def gdt(r):
    """Some periods are not recovered exactly from their reciprocal etc."""
    return round(r.uniform(.02, 3), 3) if r.random() < .1 else r.choice(DTS)


def gstate(r, n=None, p=None, m=None, dt="?", kind=None, square=False):
    if n is None:
        n = r.choice([5, 6, 8]) if r.random() < .04 else \
            r.choice([1, 2, 2, 3, 3, 4])
    if p is None and m is None and r.random() < .45:
        p = m = 1
    p = r.choice([1, 2, 2, 3]) if p is None else p
    m = p if square else (r.choice([1, 2, 2, 3]) if m is None else m)
    dt = gdt(r) if dt == "?" else dt
    if n == 0:
        return {"t": "State", "d": gmat(r, p, m), "dt": dt}
    kind = kind or r.choice(["stable", "stable", "mixed", "integ"])
    if kind == "integ":
        a = gmodal(r, n, dt, "stable")
        a[n - 1, :] = 0.
        a[:, n - 1] = 0.
        if n > 1 and a[n - 2, n - 2] == 0:
            a[n - 2, n - 2] = -.4
        if dt:
            a[n - 1, n - 1] = 1.
    else:
        a = gmodal(r, n, dt, kind)
    if kind != "integ":
        t = gsim(r, n)
        a = np.linalg.solve(t, a @ t)
    d = gmat(r, p, m) if r.random() < .5 else [[0.] * m for _ in range(p)]
    s = {"t": "State", "a": rnd(a.tolist(), 5), "b": gmat(r, n, m),
         "c": gmat(r, p, n), "d": d, "dt": dt}
    if n > 1 and r.random() < .1:
        # an entry that is nearly or exactly zero
        x = s[r.choice("abc")]
        row = r.choice(x)
        row[r.randrange(len(row))] = r.choice([1e-10, -3e-11, 1e-17, 0.])
    if n > 1 and r.random() < .35:
        s["lay"] = r.choice("FFTSV")
    return s


def gpoly(r, deg, dt=None, kind="stable"):
    if deg == 0:
        return [round(r.uniform(.5, 2.), 3)]
    c = np.real(np.poly(np.linalg.eigvals(gmodal(r, deg, dt, kind))))
    return rnd((c * r.choice([1., 1., 2.])).tolist(), 5)


def gnum(r, deg):
    v = gvec(r, deg + 1)
    if abs(v[0]) < .1:
        v[0] = 1.
    return v


def gtransfer(r, p=None, m=None, dt="?", kind=None):
    if p is None and m is None and r.random() < .5:
        p = m = 1
    p = r.choice([1, 2]) if p is None else p
    m = r.choice([1, 2, 3]) if m is None else m
    dt = gdt(r) if dt == "?" else dt
    kind = kind or r.choice(["stable", "stable", "mixed"])
    if p == m == 1:
        dd = r.choice([1, 2, 2, 3, 4])
        nn = r.randint(0, dd)
        return {"t": "Transfer", "num": gnum(r, nn),
                "den": gpoly(r, dd, dt, kind), "dt": dt}
    if r.random() < .4:
        dd = r.choice([1, 2, 3])
        den = gpoly(r, dd, dt, kind)
        num = [[gnum(r, r.randint(0, dd)) for _ in range(m)]
               for _ in range(p)]
        return {"t": "Transfer", "num": num, "den": den, "dt": dt}
    num, den = [], []
    for _ in range(p):
        rn, rd = [], []
        for _ in range(m):
            dd = r.choice([0, 1, 1, 2])
            rd.append(gpoly(r, dd, dt, kind))
            rn.append(gnum(r, r.randint(0, dd)))
        num.append(rn)
        den.append(rd)
    return {"t": "Transfer", "num": num, "den": den, "dt": dt}


def ggain(r, p=None, m=None, dt="?"):
    p = r.choice([1, 1, 2]) if p is None else p
    m = r.choice([1, 1, 2]) if m is None else m
    dt = gdt(r) if dt == "?" else dt
    if r.random() < .5:
        return {"t": "State", "d": gmat(r, p, m), "dt": dt}
    if p == m == 1:
        return {"t": "Transfer", "num": gvec(r, 1, .5, 2.), "den": [1.],
                "dt": dt}
    return {"t": "Transfer", "num": [[[x] for x in row]
                                     for row in gmat(r, p, m)],
            "den": [[[1.] for _ in range(m)] for _ in range(p)], "dt": dt}


def gmodel(r, p=None, m=None, dt="?", kind=None, gain=.12):
    x = r.random()
    if x < gain:
        return ggain(r, p, m, dt)
    if x < gain + .5 * (1 - gain):
        return gstate(r, None, p, m, dt, kind)
    return gtransfer(r, p, m, dt, kind)


def sshape(s):
    """(p, m) of a model spec."""
    if s["t"] == "State":
        return len(s["d"]), len(s["d"][0])
    n = s["num"]
    if isinstance(n[0], list):
        return len(n), len(n[0])
    return 1, 1


def isgain(s):
    if s["t"] == "State":
        return "a" not in s
    d = s["den"]
    if isinstance(d[0], list):
        return all(len(x) == 1 for row in d for x in row)
    return len(d) == 1
