"""Attribute assignments: generation and application."""
from . import specs as S
from .specs import arr, gmat, gvec

RECORD = ["DiscretizedWith", "DiscretizationMatrix", "PrewarpFrequency"]
KNOWN = ["zoh", "tustin", "foh", "bilinear", "forward euler",
         "backward euler", "lft", ">>", "<<"]


def gen(r, spec, own=False, bad=.35):
    """One assignment for a model built from spec -> {"attr", "val"}.

    `bad` is the share of values that should be refused.
    """
    p, m = S.sshape(spec)
    isbad = r.random() < bad
    if not isbad and r.random() < .15:
        return now(r, spec)
    x = r.random()
    if x < .14:
        v = r.choice([0, -1., "abc", {"t": "list", "v": [1, 2]}, "x"]) \
            if isbad else r.choice([None, None, .1, .5, 2., 1,
                                    round(r.uniform(.02, 3), 3)])
        return {"attr": "SamplingPeriod", "val": v}
    if x < .22:
        v = r.choice(["nonsense", None, 3]) if isbad else r.choice(KNOWN)
        return {"attr": "DiscretizedWith", "val": v}
    if x < .28:
        v = r.choice(["x", arr([1., 2., 3.]), arr(gmat(r, 2, 3)),
                      {"t": "list", "v": ["a", "b"]}]) if isbad else \
            arr(gmat(r, 2, 2), lay=r.choice("CFSL"))
        return {"attr": "DiscretizationMatrix", "val": v}
    if x < .34:
        v = r.choice(["x", 1e9, {"t": "list", "v": []}]) if isbad else \
            gprewarp(r)
        return {"attr": "PrewarpFrequency", "val": v}
    if spec["t"] == "State":
        return _state(r, spec, p, m, isbad)
    return _transfer(r, spec, p, m, isbad)


HOWS = ["same", "near", "near", "entry", "entry", "sign", "turn", "own",
        "twice", "int", "longer", "part", "cancel", "cancel"]


def now(r, spec):
    """An assignment whose value is made from what the model holds then."""
    names = ["a", "a", "b", "c", "d"] if spec["t"] == "State" else \
        ["num", "num", "den", "den"]
    return {"attr": r.choice(names + ["SamplingPeriod"]),
            "val": {"t": "now", "how": r.choice(HOWS),
                    "by": round(10 ** r.uniform(-5.5, -2), 9),
                    "i": r.getrandbits(8)}}


def value(g, st):
    """What is assigned in the step st to the model g."""
    v = st["val"]
    if not isinstance(v, dict) or v.get("t") != "now":
        return S.build(v)
    old = getattr(g, st["attr"], None)
    how = v["how"]
    if how == "own" or old is None:
        return old

    def f(x):
        x = S.np.array(x, dtype=float)
        if how == "near":
            x = x * (1 + v["by"])
        elif how == "entry" and x.size:
            x.flat[v["i"] % x.size] *= 1 + 10 * v["by"]
        elif how == "sign":
            x = -x
        elif how == "turn":
            x = x[..., ::-1].copy() if st["attr"] in ("num", "den", "b", "d") \
                else x.T.copy()
        elif how == "twice":
            x = 2 * x
        elif how == "int" and S.np.abs(x).max(initial=0) < 1e9:
            x = S.np.rint(x).astype(int)
        elif how == "longer" and st["attr"] in ("num", "den"):
            x = S.np.concatenate([S.np.zeros(x.shape[:-1] + (1,)), x], -1)
        return x
    if how in ("part", "cancel") and st["attr"] == "num":
        return other_num(g, how, v["i"])
    if isinstance(old, list):
        return [[f(x) for x in row] for row in old]
    if isinstance(old, (int, float)):
        return {"near": old * (1 + v["by"]), "entry": old * (1 + v["by"]),
                "sign": -old, "twice": 2 * old}.get(how, old)
    return f(old)


def other_num(g, how, i):
    """Numerators of g with one entry zero, or one that cancels a factor of
    its denominator."""
    num, den = g.num, g.den
    if not isinstance(num, list):
        num, den = [[num]], [[den]]
    new = [[S.np.array(x, dtype=float) for x in row] for row in num]
    p, m = i % len(num), i // len(num) % len(num[0])
    new[p][m] = S.np.zeros((1, 1))
    roots = S.np.roots(S.np.ravel(den[p][m]))
    real = [z.real for z in roots if z.imag == 0]
    if how == "cancel" and real:
        new[p][m] = S.np.array([[1., -real[i % len(real)]]])
    elif how == "cancel" and len(roots) > 2:
        z = roots[0]
        new[p][m] = S.np.array([[1., -2 * z.real, abs(z) ** 2]])
    return new if isinstance(g.num, list) else new[0][0]


def gprewarp(r):
    """Mostly below the Nyquist rate of any period in use."""
    return round(r.uniform(.01, .2) if r.random() < .6 else
                 r.uniform(.2, 4.9), 3)


def burst(r, spec):
    """Assignments that build up and disturb a discretization record."""
    out = []

    def put(attr, val):
        out.append({"attr": attr, "val": val})
    if spec.get("dt") is None or r.random() < .2:
        put("SamplingPeriod", r.choice([.1, .5, 1.]))
    how = r.choice(["lft", "lft", "tustin", "tustin", "bilinear"])
    put("DiscretizedWith", how)
    for _ in range(r.randint(1, 3)):
        bad = r.random() < .4
        if how == "lft":
            put("DiscretizationMatrix",
                r.choice([arr(gmat(r, 2, 3)), arr([1., 2., 3.]), "x",
                          arr(gmat(r, 3, 3)), None]) if bad else
                arr(gmat(r, 2, 2), lay=r.choice("CFSL")))
        else:
            put("PrewarpFrequency",
                r.choice(["x", 1e9, {"t": "list", "v": []}]) if bad else
                gprewarp(r))
        if r.random() < .3:
            out.append(gen(r, spec, bad=.2))
    if r.random() < .3:
        put("SamplingPeriod", None)
        put("SamplingPeriod", .2)
    elif r.random() < .6:
        # the record may not fit this one
        put("SamplingPeriod", r.choice([.05, .7, 3., 20., 20.]))
    return out


def insert_burst(r, spec, steps, share=.3, wrap=lambda s: s):
    """Put a burst somewhere into the history for a share of the cases."""
    if r.random() < share:
        i = r.randrange(len(steps) + 1)
        steps[i:i] = [wrap(s) for s in burst(r, spec)]


NAN, INF = {"f": "nan"}, {"f": "inf"}


def _state(r, s, p, m, bad):
    n = len(s["a"]) if "a" in s else 0
    at = r.choice("aaabbccdd")
    rows, cols = {"a": (n, n), "b": (n, m), "c": (p, n), "d": (p, m)}[at]
    rows, cols = max(rows, 1), max(cols, 1)
    if bad:
        # no infinite entries: the SVD inside may never end with them
        k = r.choice(["nan", "nan", "shape", "str", "ragged", "none", "3d",
                      "cplx", "nanmany"])
        if k in ("nan", "nanmany"):
            v = gmat(r, rows, cols)
            v[r.randrange(rows)][r.randrange(cols)] = NAN
            if k == "nanmany":
                v[0][0] = NAN
            return {"attr": at, "val": arr(v, lay=r.choice("CFL"))}
        if k == "shape":
            return {"attr": at, "val": arr(gmat(r, rows + r.choice([0, 1]),
                                                cols + 1))}
        if k == "str":
            return {"attr": at, "val": "abc"}
        if k == "ragged":
            return {"attr": at, "val": {"t": "list", "v": [[1., 2.], [3.]]}}
        if k == "none":
            return {"attr": at, "val": None}
        if k == "cplx":
            return {"attr": at, "val": arr([[{"re": 1., "im": 1.}] * cols]
                                           * rows, "c")}
        return {"attr": at, "val": arr([gmat(r, rows, cols)])}
    if at == "a" and n:
        dt = s.get("dt")
        a = S.gmodal(r, n, dt, r.choice(["stable", "unstable", "mixed"]))
        t = S.gsim(r, n)
        v = S.rnd(S.np.linalg.solve(t, a @ t).tolist(), 5)
    else:
        v = gmat(r, rows, cols)
        if at == "d" and r.random() < .5:
            v = [[0.] * cols for _ in range(rows)]
    if rows == cols == 1 and r.random() < .3:
        return {"attr": at, "val": v[0][0]}
    return {"attr": at, "val": arr(v, lay=r.choice("CFTSVL"))}


def _transfer(r, s, p, m, bad):
    at = r.choice(["num", "den"])
    dt = s.get("dt")
    siso = p == m == 1

    def box(f):
        if siso:
            return arr(f(), lay=r.choice("CSL"))
        return {"t": "list", "v": [{"t": "list", "v": [
            arr(f(), lay=r.choice("CL")) for _ in range(m)]}
            for _ in range(p)]}
    if bad:
        k = r.choice(["nan", "inf", "shape", "str", "long", "none", "zero",
                      "empty", "nanmid"])
        if k in ("nan", "inf", "nanmid"):
            bad1 = NAN if k != "inf" else INF
            return {"attr": at, "val": box(
                lambda: [1., bad1] if k == "nanmid" else [bad1, 1.])}
        if k == "shape":
            v = [[[1., 2.]] * (m + 1) for _ in range(p)]
            return {"attr": at, "val": {"t": "list", "v": v}}
        if k == "str":
            return {"attr": at, "val": r.choice(["abc",
                                                 {"t": "list", "v": ["a"]}])}
        if k == "long":
            return {"attr": at, "val": box(lambda: gvec(r, 9))}
        if k == "none":
            return {"attr": at, "val": None}
        if k == "zero":
            return {"attr": at, "val": box(lambda: [0., 0.])}
        return {"attr": at, "val": {"t": "list", "v": []}}
    x = r.random()
    if at == "num":
        if x < .35:
            v = box(lambda: gvec(r, 1, .5, 2.))
            if siso and r.random() < .4:
                v = round(r.uniform(.5, 3), 2)
        elif x < .45:
            v = box(lambda: [0.])
        elif x < .75:
            v = box(lambda: S.gnum(r, 1))
        else:
            v = box(lambda: S.gnum(r, 2))
    else:
        if x < .2:
            v = box(lambda: gvec(r, 1, .5, 2.))
            if siso and r.random() < .4:
                v = round(r.uniform(.5, 3), 2)
        elif x < .35 and not siso:
            v = arr(S.gpoly(r, 2, dt, "stable"), lay="L")
        else:
            v = box(lambda: S.gpoly(r, r.choice([1, 2, 2, 3]), dt,
                                    r.choice(["stable", "unstable",
                                              "mixed"])))
    return {"attr": at, "val": v}


def shrink_history(case, key="steps"):
    """Candidate cases with fewer history entries."""
    st = case[key]
    n = len(st)
    k = n // 2
    while k >= 1:
        for i in range(0, n, k):
            c = dict(case)
            c[key] = st[:i] + st[i + k:]
            if c[key]:
                yield c
        k //= 2
