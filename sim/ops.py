"""Registry of public calls: how to make arguments for them and run them.

A call is {"op": name, "args": [specs], "kw": {name: spec}, "seed": int}.
"""
import copy

from . import specs as S
from .boot import harold, plt, np
from .specs import arr, gmat, gvec, glay

H = harold


class Cx:
    """Generation context: a pool of object specs that calls refer to."""

    def __init__(self, r, pool=None, reuse=.6, cap=10, gain=.12):
        self.r = r
        self.pool = [] if pool is None else pool
        self.reuse = reuse
        self.cap = cap
        self.gain = gain

    def add(self, spec):
        self.pool.append(spec)
        return {"t": "ref", "i": len(self.pool) - 1}

    def find(self, pred):
        c = [i for i, s in enumerate(self.pool)
             if isinstance(s, dict) and s["t"] in ("State", "Transfer")
             and pred(s)]
        if c and (self.r.random() < self.reuse or
                  len(self.pool) >= 4 * self.cap):
            return {"t": "ref", "i": self.r.choice(c)}
        return None

    def model(self, p=None, m=None, dt="?", typ=None, kind=None, dyn=None):
        r = self.r

        def pred(s):
            q = S.sshape(s)
            return ((p is None or q[0] == p) and (m is None or q[1] == m) and
                    (dt == "?" or s["dt"] == dt) and kind is None and
                    (typ is None or s["t"] == typ) and
                    (dyn is None or S.isgain(s) != dyn))
        f = self.find(pred)
        if f:
            return f
        gain = 0. if dyn else self.gain
        for _ in range(40):
            if dyn is False:
                s = S.ggain(r, p, m, dt)
            elif typ == "State":
                s = S.ggain(r, p, m, dt) if r.random() < gain else \
                    S.gstate(r, None, p, m, dt, kind)
            elif typ == "Transfer":
                s = S.ggain(r, p, m, dt) if r.random() < gain else \
                    S.gtransfer(r, p, m, dt, kind)
            else:
                s = S.gmodel(r, p, m, dt, kind, gain)
            if (typ is None or s["t"] == typ) and \
                    (dyn is None or S.isgain(s) != dyn):
                return self.add(s)
        raise RuntimeError("cannot generate model")

    def spec(self, ref):
        return self.pool[ref["i"]]

    def array(self, v, dtype="f", lay=None):
        return self.add(arr(v, dtype, lay or glay(self.r)))


OPS = {}


def op(name, rng=False, plot=False, w=1., indep=True, exact=True):
    def deco(pair):
        gen, fn = pair()
        OPS[name] = {"gen": gen, "fn": fn, "rng": rng, "plot": plot, "w": w,
                     "exact": exact}
        return pair
    return deco


def simple(name, gen, fn, **k):
    OPS[name] = dict({"gen": gen, "fn": fn, "rng": False, "plot": False,
                      "w": 1.}, **k)


def _m(**k):
    return lambda c: ([c.model(**k)], {})


# ------------------------------------------------------------- unary, model
simple("neg", _m(), lambda g: -g)
simple("repr", _m(), lambda g: repr(g))
simple("str", _m(), lambda g: str(g))
simple("pole_properties", _m(),
       lambda g: g.pole_properties(output_data=True))
simple("pole_table", _m(), lambda g: g.pole_properties())
simple("to_array", lambda c: ([c.model(dyn=c.r.random() < .2)], {}),
       lambda g: g.to_array())
simple("dcgain", _m(), lambda g: g.dcgain, rng=True)
simple("attributes", _m(),
       lambda g: [g.shape, g.NumberOfInputs, g.NumberOfOutputs,
                  g.SamplingPeriod, g.SamplingSet, g.DiscretizedWith,
                  g.PrewarpFrequency, np.asarray(g.poles),
                  np.asarray(g.zeros)])
simple("raw_data", _m(),
       lambda g: list(g.matrices) if isinstance(g, H.State)
       else list(g.polynomials))
simple("state_to_transfer", _m(typ="State"),
       lambda g, **k: H.state_to_transfer(g, **k))
simple("state_to_poly", _m(typ="State"),
       lambda g: H.state_to_transfer(g, output="polynomials"))
simple("transfer_to_state", _m(typ="Transfer"),
       lambda g, **k: H.transfer_to_state(g, **k))
simple("transfer_to_mats", _m(typ="Transfer"),
       lambda g: H.transfer_to_state(g, output="matrices"))
simple("concatenate", _m(typ="State"),
       lambda g: H.concatenate_state_matrices(g))
def _may(c, share, **k):
    """Some of the options with one of their values."""
    return {n: c.r.choice(v) for n, v in k.items() if c.r.random() < share}


def _g_model_or_arrays(c, n, dyn=True, share=.3):
    """A State model, or the tuple of its first n arrays."""
    if c.r.random() < share:
        return c.add({"t": "tuple", "v": _abcd(c)[:n]})
    return c.model(typ="State", dyn=dyn)


def _g_a_and_c(c, share=.3):
    if c.r.random() < share:
        a, _, cc, _ = _abcd(c)
        return c.add({"t": "tuple", "v": [a, cc]})
    return c.model(typ="State", dyn=True)


def _arrays(g):
    return tuple(map(np.asarray, g)) if isinstance(g, tuple) else g


simple("minimal_realization",
       lambda c: ([c.model()], _may(c, .3, tol=[1e-6, 1e-3, 1e-9])),
       lambda g, **k: H.minimal_realization(g, **k), rng=True)
simple("hessenberg",
       lambda c: ([c.model(typ="Transfer", dyn=True) if c.r.random() < .2
                   else _g_model_or_arrays(c, 4)],
                  dict({"form": c.r.choice(["c", "o"]),
                        "invert": c.r.random() < .5,
                        "compute_T": c.r.random() < .5},
                       **_may(c, .3, output=["system", "matrices"]))),
       lambda g, **k: H.hessenberg_realization(_arrays(g), **k))
simple("kalman_decomposition",
       lambda c: ([c.model(typ="State")],
                  dict({"compute_T": c.r.random() < .5,
                        "output": c.r.choice(["system", "matrices"])},
                       **_may(c, .3, cleanup_threshold=[1e-9, 1e-4]))),
       lambda g, **k: H.kalman_decomposition(g, **k))
simple("place_poles", lambda c: ([c.model(typ="State"),
                                  c.array(gvec(c.r, 2))], {}),
       lambda *a: H.place_poles(*a), w=.2)
simple("ctrb", lambda c: ([_g_model_or_arrays(c, 2)],
                          {"compress": c.r.random() < .5}),
       lambda g, **k: H.controllability_matrix(_arrays(g), **k))
simple("obsv", lambda c: ([_g_a_and_c(c)], {"compress": c.r.random() < .5}),
       lambda g, **k: H.observability_matrix(_arrays(g), **k))
simple("is_ctrb", lambda c: ([_g_model_or_arrays(c, 2, share=.2)], {}),
       lambda g: H.is_kalman_controllable(_arrays(g)))
simple("is_obsv", lambda c: ([_g_a_and_c(c, .2)], {}),
       lambda g: H.is_kalman_observable(_arrays(g)))
simple("norm2", lambda c: ([c.model(kind=c.r.choice([None, "stable"]))], {}),
       lambda g: H.system_norm(g, p=2))
simple("norminf", lambda c: ([c.model(kind=c.r.choice([None, "stable"]))],
                             _may(c, .3, hinf_tol=[1e-6, 1e-3],
                                  eig_tol=[1e-8, 1e-6])),
       lambda g, **k: H.system_norm(g, p=np.inf, **k))


def _light(r):
    """A lightly damped model."""
    dt = r.choice([None, None, .1])
    out = []
    for _ in range(r.choice([1, 1, 2])):
        z, w = r.choice([.001, .004, .03]), round(r.uniform(.3, 3), 2)
        re, im = -z * w, w * (1 - z * z) ** .5
        if dt:
            q = np.exp(dt * (re + 1j * im))
            re, im = q.real, q.imag
        out += [re + 1j * im, re - 1j * im]
    d = S.rnd(np.poly(out).real.tolist(), 9)
    if r.random() < .5:
        return {"t": "Transfer", "num": gvec(r, 2, .5, 2.), "den": d,
                "dt": dt}
    n = len(out)
    a = np.diag(np.ones(n - 1), 1)
    a[-1] = -np.array(d[:0:-1])
    return {"t": "State", "a": a.tolist(), "b": [[0.]] * (n - 1) + [[1.]],
            "c": gmat(r, 1, n), "d": [[0.]], "dt": dt}


def _g_w(c, n):
    """Frequencies, often but not always in increasing order and one row."""
    r = c.r
    v = gvec(r, n, .01, .9)
    x = r.random()
    if x < .75:
        v = sorted(v)
    elif x < .85:
        v = sorted(v, reverse=True)
    if r.random() < .1:
        return c.array(r.choice([[v], [[q] for q in v]]),
                       lay=r.choice("CFSL"))
    return c.array(v, lay=r.choice("CSL"))


def _g_freq(c):
    r = c.r
    k = {}
    g = c.model()
    if r.random() < .15:
        g = c.add(_light(r))
    if r.random() < .5:
        k["w"] = _g_w(c, r.randint(1, 8))
    elif r.random() < .4:
        k["samples"] = r.randint(5, 60)
    k["w_unit"] = r.choice(["Hz", "rad/s"])
    k["output_unit"] = r.choice(["Hz", "rad/s"])
    if r.random() < .2:
        k["use_minreal"] = True
    return [g], k


simple("frequency_response", _g_freq,
       lambda g, **k: H.frequency_response(g, **k), rng=True, w=1.5)


def _g_t(c, dt, n):
    r = c.r
    step = dt if dt else r.choice([.05, .1, .2])
    first = 0 if r.random() < .8 else r.choice([1, 3, 10, -2])
    v = [round((first + i) * step, 6) for i in range(n)]
    return c.array([v] if r.random() < .08 else v, lay=r.choice("CSL"))


def _g_resp(c):
    g = c.model(kind=None)
    k = {}
    if c.r.random() < .1:
        g = c.add(_light(c.r))
    if c.r.random() < .5:
        k["t"] = _g_t(c, c.spec(g)["dt"], c.r.randint(4, 30))
    return [g], k


simple("step_response", _g_resp,
       lambda g, **k: H.simulate_step_response(g, **k))
simple("impulse_response", _g_resp,
       lambda g, **k: H.simulate_impulse_response(g, **k))


def _g_sim(c):
    r = c.r
    g = c.model(dyn=True)
    s = c.spec(g)
    p, m = S.sshape(s)
    n = r.randint(4, 25)
    u = gmat(r, n, m) if m > 1 or r.random() < .5 else gvec(r, n)
    k = {}
    if s["dt"] is None or r.random() < .5:
        k["t"] = _g_t(c, s["dt"], n)
    if s["t"] == "State" and r.random() < .5:
        x0 = gvec(r, len(s["a"]))
        k["x0"] = c.array([[x] for x in x0] if r.random() < .25 else x0,
                          lay=r.choice("CSL"))
    if r.random() < .3:
        k["per_channel"] = True
    return [g, c.array(u)], k


simple("simulate", _g_sim,
       lambda g, u, **k: H.simulate_linear_system(g, u, **k), w=1.5)

METHODS = ["zoh", "foh", "tustin", "bilinear", "forward euler",
           "backward euler", "forward difference", "backward difference",
           "forward rectangular", "backward rectangular", "lft", "impulse",
           "<<", ">>", "trapezoidal"]


def _g_close(c, undo):
    """A conversion that the library warns about or refuses, because it is a
    rounding error away from being impossible."""
    r = c.r
    T = r.choice([.1, .2, .5])
    meth = r.choice(["tustin", "bilinear", "backward euler", "<<"])
    bil = meth in ("tustin", "bilinear")
    k = r.choice([0, 1, 1, 2, 3, 5])
    if not undo:
        lam = (2 / T if bil else 1 / T) * (1 - k * 2. ** -53)
    else:
        lam = -1. + k * 2. ** -53 if bil else k * 3e-17
    if undo and r.random() < .35:
        meth = r.choice(["zoh", "zoh", "foh"])
        lam = r.choice([0., -1., 1., 1.]) * 10 ** r.uniform(-12, -5)
    g = {"t": "State", "a": [[lam, r.choice([1., 1e2, 1e3, 1e5])],
                             [0., r.choice([-1.5, -.5, .5])]],
         "b": gmat(r, 2, 1), "c": gmat(r, 1, 2), "d": [[0.]],
         "dt": T if undo else None}
    return [c.add(g)] + ([] if undo else [T]), {"method": meth}


def _g_disc(c):
    r = c.r
    if r.random() < .12:
        return _g_close(c, False)
    g = c.model(dt=None)
    k = {"method": "lft" if r.random() < .1 else r.choice(METHODS)}
    if k["method"] == "lft":
        k["q"] = c.array([[1., round(r.uniform(.1, .5), 3)],
                          [1., round(r.uniform(.05, .3), 3)]])
    if k["method"] in ("tustin", "bilinear") and r.random() < .4:
        k["prewarp_at"] = round(r.uniform(.05, .8), 3)
    return [g, r.choice([.1, .2, .5])], k


simple("discretize", _g_disc, lambda g, dt, **k: H.discretize(g, dt, **k),
       w=1.5)


def _g_undisc(c):
    r = c.r
    if r.random() < .12:
        return _g_close(c, True)
    g = c.model(dt=r.choice([.1, .5, 1.]), dyn=True)
    k = {"method": r.choice(METHODS[:11])}
    if k["method"] in ("tustin", "bilinear") and r.random() < .4:
        k["prewarp_at"] = round(r.uniform(.05, .3), 3)
    elif r.random() < .1:
        k = {}
    if k.get("method") == "lft":
        k["q"] = c.array([[1., round(r.uniform(.1, .5), 3)],
                          [1., round(r.uniform(.05, .3), 3)]])
    return [g], k


simple("undiscretize", _g_undisc, lambda g, **k: H.undiscretize(g, **k))


def _rt(g, dt, meth):
    gd = H.discretize(g, dt, method=meth)
    return [gd, gd.DiscretizedWith, H.undiscretize(gd)]


simple("roundtrip", lambda c: ([c.model(dt=None, dyn=True), .2,
                                c.r.choice(METHODS[:6])], {}), _rt)


def _g_slice(c):
    r = c.r
    g = c.model()
    p, m = S.sshape(c.spec(g))

    def part(k):
        return r.choice([
            r.randrange(k), -1, {"t": "slice", "v": [None, None]},
            {"t": "slice", "v": [0, k]}, {"t": "slice", "v": [None, None, -1]},
            {"t": "slice", "v": [r.randrange(k), None]},
            {"t": "list", "v": [r.randrange(k)]},
            {"t": "list", "v": [r.randrange(k)
                                for _ in range(r.randint(2, 3))]}])
    a, b = part(p), part(m)
    if r.random() < .1:
        return [g, a], {}
    return [g, {"t": "tuple", "v": [a, b]}], {}


simple("getitem", _g_slice, lambda g, k: g[k])


# ------------------------------------------------------------------- binary
def _g_scalar(r):
    x = r.random()
    if x < .5:
        return round(r.uniform(-3, 3), 2)
    if x < .7:
        return r.choice([0, 1, -2, 3])
    return {"t": r.choice(["np", "np", "npi"]), "v": r.choice([2., -3., .5])}


def _g_same(c):
    """Two models of same shape and sampling (or gains, scalars, arrays)."""
    r = c.r
    g = c.model()
    s = c.spec(g)
    p, m = S.sshape(s)
    x = r.random()
    if x < .6:
        h = c.model(p=p, m=m, dt=s["dt"])
    elif x < .7:
        h = g
    elif x < .8:
        h = _g_scalar(r)
    elif x < .9:
        h = c.array(gmat(r, p, m), lay=r.choice("CFTSV"))
    else:
        h = c.model(dt=s["dt"])
    if (p, m) == (1, 1) and (x < .6 and S.isgain(s) != S.isgain(c.spec(h)) or
                             .8 <= x < .9 or x >= .9):
        h = round(r.uniform(-3, 3), 2)      # endless recursion in harold
    return ([g, h] if r.random() < .7 else [h, g]), {}


def _g_chain(c):
    r = c.r
    g = c.model()
    s = c.spec(g)
    p, m = S.sshape(s)
    x = r.random()
    if x < .7:
        h = c.model(p=m, dt=s["dt"])
    elif x < .8:
        h = round(r.uniform(.5, 3), 2)
    elif x < .9:
        h = c.array(gmat(r, m, r.randint(1, 2)), lay=r.choice("CFTSV"))
    else:
        h = c.model(dt=s["dt"])
    return [g, h], {}


simple("add", _g_same, lambda x, y: x + y, w=1.5)
simple("sub", _g_same, lambda x, y: x - y)
simple("mul", _g_same, lambda x, y: x * y)
simple("matmul", _g_chain, lambda x, y: x @ y)
simple("div", lambda c: ([c.model(), round(c.r.uniform(.5, 3), 2)], {}),
       lambda x, y: x / y)
simple("rdiv", lambda c: ([round(c.r.uniform(.5, 3), 2),
                           c.model(p=1, m=1)], {}), lambda x, y: x / y)


ARITH = {"+": lambda x, y: x + y, "-": lambda x, y: x - y,
         "*": lambda x, y: x * y, "@": lambda x, y: x @ y,
         "/": lambda x, y: x / y}


def _g_arith(c):
    """Operands of different kinds, sizes and order."""
    r = c.r
    g = c.model(dyn=r.random() < .8)
    s = c.spec(g)
    p, m = S.sshape(s)
    dt = s["dt"]
    k = r.choice(["one", "one", "same", "gain", "onegain", "chain", "array",
                  "array", "zeros", "single", "flat", "number", "odd"])
    lay = r.choice("CFTSV")
    if k == "one":
        h = c.model(p=1, m=1, dt=dt, dyn=True)
    elif k == "same":
        h = c.model(p=p, m=m, dt=dt, dyn=True)
    elif k == "gain":
        h = c.model(p=p, m=m, dt=dt, dyn=False)
    elif k == "onegain":
        h = c.model(p=1, m=1, dt=dt, dyn=False)
    elif k == "chain":
        h = c.model(p=m, m=r.choice([1, p, None]), dt=dt)
    elif k == "array":
        q = r.choice([(p, m), (p, m), (m, p), (2, 2), (1, 2), (3, 1)])
        v = gmat(r, *q)
        if r.random() < .4:
            v[0][0] = 0.
        h = c.array(v, lay=lay)
    elif k == "zeros":
        q = r.choice([(p, m), (m, p), (2, 2)])
        h = c.array(np.zeros(q).tolist(), lay=lay)
    elif k == "single":
        h = c.array(r.choice([[2.5], [[-1.5]], [0.]]), lay="C")
    elif k == "flat":
        h = c.array(gvec(r, r.choice([p, m, 2])), lay=r.choice("CS"))
    elif k == "number":
        h = r.choice([0, 0., 1, -2., 3, {"t": "np", "v": .5}])
    else:
        h = r.choice(["x", None, c.array([[{"re": 1., "im": 1.}]], "c", "C"),
                      c.array([[{"re": 1., "im": 0.}]], "c", "C"),
                      c.model(p=1, m=1, dt=.37)])
    o = r.choice("++-**@@@/")
    if o == "/" and k in ("array", "zeros", "single", "flat", "number"):
        o = "@"         # no zeros below: LAPACK may not return from inf
    if o in "+-" and (p, m) == (1, 1) and isinstance(h, dict) and \
            h["t"] == "ref":
        q = c.spec(h)
        if q["t"] == "arr" or S.isgain(q) != S.isgain(s):
            o = "*"                         # endless recursion in harold
    return [o] + ([g, h] if r.random() < .6 else [h, g]), {}


simple("arith", _g_arith, lambda o, x, y: ARITH[o](x, y), w=2.5)


def _g_fb(c):
    r = c.r
    g = c.model()
    s = c.spec(g)
    p, m = S.sshape(s)
    x = r.random()
    if x < .7:
        h = c.model(p=m, m=p, dt=s["dt"])
    elif x < .85:
        h = c.array(gmat(r, m, p), lay=r.choice("CFTSV"))
    else:
        h = round(r.uniform(.5, 2), 2)
    return [g, h], {"negative": r.random() < .7}


simple("feedback", _g_fb, lambda g, h, **k: H.feedback(g, h, **k), w=1.3)


# ------------------------------------------------------------------- arrays
def _abcd(c, n=None, p=None, m=None):
    s = S.gstate(c.r, n, p, m, None)
    return [c.array(s[k]) for k in "abcd"]


simple("transmission_zeros", lambda c: (_abcd(c), {}),
       lambda a, b, cc, d: H.transmission_zeros(*map(np.asarray,
                                                     (a, b, cc, d))))
simple("new_state", lambda c: (_abcd(c) + [c.r.choice([None, .1])], {}),
       lambda a, b, cc, d, dt: H.State(a, b, cc, d, dt))
simple("validate_state", lambda c: (_abcd(c), {}),
       lambda *a: H.State.validate_arguments(*a))
simple("validate_aloud", lambda c: (_abcd(c), {}),
       lambda *a: H.State.validate_arguments(*a, verbose=True), w=.5)


def _g_odd_state(c):
    """State models from fewer or flatter arguments."""
    r = c.r
    k = r.choice(["gain", "scalar", "nod", "flatb", "flatd", "int", "n1"])
    s = S.gstate(r, None, *((1, 1) if k in ("flatb", "n1") else (None,) * 2))
    if k == "gain":
        return [c.array(s["d"])], {}
    if k == "scalar":
        return [r.choice([3, 2.5, -1])], {}
    if k == "nod":
        return [c.array(s[x]) for x in "abc"], {"dt": s["dt"]}
    if k == "flatb":
        return [c.array(s["a"]), c.array([x[0] for x in s["b"]],
                                         lay=r.choice("CSL")),
                c.array(s["c"][0], lay=r.choice("CSL"))], {}
    if k == "flatd":
        return [c.array(s["a"]), c.array(s["b"]), c.array([s["c"][0]]),
                c.array(s["d"][0], lay=r.choice("CSL"))], {"dt": .1}
    if k == "int":
        return [c.array([[-1, 2], [0, -3]], "i", r.choice("CFTSVL")),
                c.array([[0], [1]], "i"), c.array([[1, 0]], "i")], {}
    return [-1.5, r.choice([1, 2.]), 1, r.choice([0, .5])], {"dt": s["dt"]}


simple("odd_state", _g_odd_state, lambda *a, **k: H.State(*a, **k))


def _g_odd_transfer(c):
    """Transfer models from fewer or flatter arguments."""
    r = c.r
    k = r.choice(["scalar", "num", "int", "mat", "common", "zeros", "row",
                  "mixed"])
    if k == "scalar":
        return [r.choice([3, 2.5, -1])], {"dt": r.choice([None, .1])}
    if k == "num":
        return [r.choice([1, 2.]), c.array(S.gpoly(r, 2), lay="L")], {}
    if k == "int":
        return [c.array([1, 2], "i", r.choice("CSL")),
                c.array([1, 3, 2], "i", r.choice("CSL"))], {}
    if k == "mat":
        return [c.array(gmat(r, 2, 2), lay=r.choice("CFTSV"))], {}
    if k == "common":
        return [c.add({"t": "list", "v": [[[1.], [1., 2.]],
                                          [[3.], gvec(r, 2)]]}),
                c.array(S.gpoly(r, 2), lay=r.choice("CSL"))], {"dt": .1}
    if k == "zeros":
        return [c.array([0., 0.] + gvec(r, 2), lay=r.choice("CSL")),
                c.array([0.] + S.gpoly(r, 2), lay=r.choice("CSL"))], {}
    if k == "row":
        return [c.array([gvec(r, 2)], lay=r.choice("CFSV")),
                c.array([S.gpoly(r, 2)], lay=r.choice("CFSV"))], {}
    return [c.add({"t": "list", "v": [[1, arr(gvec(r, 2))],
                                      [[2., 1], 3.5]]}),
            c.add({"t": "list", "v": [[[1., 2.], arr(S.gpoly(r, 1))],
                                      [[1, 5, 6], [1., 4.]]]})], {}


simple("odd_transfer", _g_odd_transfer, lambda *a, **k: H.Transfer(*a, **k))


def _g_newtf(c):
    r = c.r
    s = S.gtransfer(r)
    if S.sshape(s) == (1, 1):
        lay = r.choice("CSL")
        return [c.array(s["num"], lay=lay), c.array(s["den"], lay=lay),
                s["dt"]], {}
    def box(v):
        if v and isinstance(v[0], list):
            return [box(x) for x in v]
        return arr(v, "f", r.choice("CSL"))
    return [c.add({"t": "list", "v": box(s["num"])}),
            c.add({"t": "list", "v": box(s["den"])})
            if isinstance(s["den"][0], list) else c.array(s["den"], lay="L"),
            s["dt"]], {}


simple("new_transfer", _g_newtf, lambda n, d, dt: H.Transfer(n, d, dt))
simple("validate_transfer", _g_newtf,
       lambda n, d, dt: H.Transfer.validate_arguments(n, d))
simple("validate_transfer_aloud", _g_newtf,
       lambda n, d, dt: H.Transfer.validate_arguments(n, d, verbose=True),
       w=.5)
simple("tuple_to_state", _g_newtf,
       lambda n, d, dt: H.transfer_to_state((n, d), output="matrices"))
simple("tuple_to_transfer", lambda c: (_abcd(c), {}),
       lambda *a: H.state_to_transfer(tuple(map(np.asarray, a)),
                                      output="polynomials"))


def _g_stair(c):
    a, b, cc, d = _abcd(c)
    r = c.r
    return [a, b, cc], {"form": r.choice(["c", "o"]),
                        "compute_T": r.random() < .5,
                        "invert": r.random() < .5,
                        "block_indices": r.random() < .5}


simple("staircase", _g_stair,
       lambda a, b, cc, **k: H.staircase(*map(np.asarray, (a, b, cc)), **k))
simple("cancellation_distance", lambda c: (_abcd(c)[:2], {}),
       lambda f, g: H.cancellation_distance(np.asarray(f), np.asarray(g)),
       rng=True, exact=False)
simple("controllability_indices",
       lambda c: (_abcd(c)[:2], _may(c, .3, tol=[1e-9, 1e-3])),
       lambda a, b, **k: H.controllability_indices(a, b, **k))


def _g_lyap(c):
    r = c.r
    form = r.choice("cd")
    n = r.choice([1, 2, 3, 4, 5, 6])
    dt = None if form == "c" else 1.
    a = S.gmodal(r, n, dt, "stable")
    t = S.gsim(r, n)
    a = np.linalg.solve(t, a @ t)
    y = np.array(gmat(r, n, n))
    y = y + y.T
    lay = r.choice("CFTSV")
    args = [c.array(S.rnd(a.tolist(), 6), lay=lay),
            c.array(S.rnd(y.tolist(), 6), lay=r.choice("CFTSV"))]
    if r.random() < .55:
        e = np.eye(n) + .2 * np.array(gmat(r, n, n, -.5, .5))
        args.append(c.array(S.rnd(e.tolist(), 6),
                            lay=r.choice([lay, r.choice("CFTSV")])))
    return args, {"form": form}


simple("lyapunov", _g_lyap,
       lambda *a, **k: H.lyapunov_eq_solver(*a, **k), w=2.5)


def _g_mat(c):
    r = c.r
    p, m = r.randint(1, 4), r.randint(1, 4)
    v = np.array(gmat(r, p, m))
    if r.random() < .4 and min(p, m) > 1:
        v[-1] = v[0] * 2
    return [c.array(S.rnd(v.tolist()))]


simple("svd", lambda c: (_g_mat(c), dict({"also_rank": c.r.random() < .5},
                                         **_may(c, .3, rank_tol=[1e-9, .5]))),
       lambda a, **k: H.haroldsvd(a, **k))
simple("ker", lambda c: (_g_mat(c), {"side": c.r.choice(["right", "left"])}),
       lambda a, **k: H.haroldker(a, **k))


def _g_pairs(c):
    r = c.r
    v = []
    for _ in range(r.randint(1, 3)):
        if r.random() < .6:
            x, y = round(r.uniform(-2, 2), 2), round(r.uniform(.5, 2), 2)
            v += [{"re": x, "im": y}, {"re": x, "im": -y}]
        else:
            v.append({"re": round(r.uniform(-2, 2), 2), "im": 0.})
    if r.random() < .3:
        v += v[:2]              # repeated ones
    r.shuffle(v)
    return [c.array(v, "c", r.choice("CSL"))], \
        _may(c, .3, positives_first=[True], reals_first=[False], tol=[1e-6],
             realness_tol=[1e-6])


simple("pair_complex", _g_pairs,
       lambda a, **k: H.pair_complex_numbers(a, **k))


def _g_unit(c):
    r = c.r
    n = r.randint(1, 4)
    if r.random() < .4:
        at = r.randrange(n)
    elif r.random() < .5:
        at = {"t": "list", "v": [r.randrange(n)
                                 for _ in range(r.randint(1, 3))]}
    else:
        at = {"t": "slice", "v": [r.randrange(n), None]}
    return [n, at], {"output": r.choice("cr")}


simple("e_i", _g_unit, lambda w, n, **k: H.e_i(w, n, **k))
simple("matrix_slice", lambda c: ([c.array(gmat(c.r, 3, 3),
                                           lay=c.r.choice("CFTSV")),
                                   {"t": "tuple",
                                    "v": [c.r.randint(0, 3),
                                          c.r.randint(0, 3)]}],
                                  {"corner": c.r.choice(["nw", "ne", "sw",
                                                         "se"])}),
       lambda a, s, **k: [np.array(x) for x in H.matrix_slice(a, s, **k)])


def _g_polys(c, k=None, zeros=False):
    r = c.r
    common = [round(-r.uniform(.3, 3), 2)]
    out = []
    for _ in range(k or r.randint(2, 3)):
        roots = [round(-r.uniform(.3, 6), 1) for _ in range(r.randint(1, 2))]
        if r.random() < .7:
            roots += common
        v = S.rnd(np.poly(roots).tolist(), 8)
        if zeros and r.random() < .4:
            v = [0.] * r.randint(1, 2) + v
        if zeros and r.random() < .2:
            v = v + [0.]
        out.append(c.array(v, lay=r.choice("CCSV" if not zeros else "CSVL")))
    return out


simple("lcm", lambda c: (_g_polys(c),
                         dict({"compute_multipliers": c.r.random() < .7},
                              **_may(c, .2, cleanup_threshold=[1e-9,
                                                               1e-5]))),
       lambda *a, **k: H.haroldlcm(*a, **k))
simple("gcd", lambda c: (_g_polys(c), {}), lambda *a: H.haroldgcd(*a))
simple("companion", lambda c: (_g_polys(c, 1) if c.r.random() < .5 else
                               [c.array(c.r.choice([[2, 4, 6], [0, 3, 1],
                                                    [1, 3], [5]]), "i",
                                        c.r.choice("CSL"))], {}),
       lambda a: H.haroldcompanion(a))
simple("poly", lambda c: (_g_polys(c, 1) if c.r.random() < .6 else
                          _g_pairs(c)[0], {}), lambda a: H.haroldpoly(a))
simple("polyadd", lambda c: (_g_polys(c, None, True), {"trim_zeros":
                                           c.r.random() < .5}),
       lambda *a, **k: H.haroldpolyadd(*a, **k))
simple("polymul", lambda c: (_g_polys(c, None, True), {"trim_zeros":
                                           c.r.random() < .5}),
       lambda *a, **k: H.haroldpolymul(*a, **k))
simple("polydiv", lambda c: (_g_polys(c, 2), {}),
       lambda a, b: H.haroldpolydiv(a, b))


def _g_lqr(c):
    r = c.r
    x = r.random()
    if x < .15:
        g = c.model(typ="Transfer", p=1, m=1, dyn=True)
    elif x < .23:
        # there is no solution: an unstable mode that no input reaches
        g = c.add({"t": "State", "a": [[1.5, 0.], [.3, -.4]],
                   "b": [[0.], [round(r.uniform(.5, 2), 2)]],
                   "c": gmat(r, 1, 2), "d": [[0.]],
                   "dt": r.choice([None, None, .1])})
    else:
        g = c.model(typ="State", dyn=True)
    s = c.spec(g)
    n, (p, m) = len(s["a"]) if "a" in s else len(s["den"]) - 1, S.sshape(s)
    k = {}
    out = r.random() < .4
    q = p if out else n
    lay = r.choice("CFTSV")

    def weight(k):
        w = np.eye(k) * round(r.uniform(.5, 3), 2)
        if k > 1 and r.random() < .5:
            x = round(r.uniform(-.2, .2), 3)
            w[0, -1] += x
            # output weights need not be symmetric
            if not (out and r.random() < .6):
                w[-1, 0] += x
        return c.array(w.tolist(), lay=lay)
    args = [g, weight(q)]
    if out:
        k["weight_on"] = "output"
    if r.random() < .6:
        k["R"] = weight(m)
        if r.random() < .5:
            k["S"] = c.array(np.zeros((q, m)).tolist() if r.random() < .5
                             else gmat(r, q, m, -.2, .2), lay=lay)
    return args, k


simple("lqr", _g_lqr, lambda g, q, **k: H.lqr(g, q, **k))


def _g_ack(c):
    r = c.r
    if r.random() < .2:
        n = r.randint(1, 4)
        g = c.add({"t": "tuple", "v": _abcd(c, n, 1, 1)[:2]})
    else:
        g = c.model(typ="State", m=1, dyn=True)
        n = len(c.spec(g)["a"])
    loc = gvec(r, n, -3, -.3)
    return [g, c.array(loc if r.random() < .5 else sorted(loc),
                       lay=r.choice("CSL"))], {}


simple("ackermann", _g_ack, lambda g, loc: H.ackermann(_arrays(g), loc))
def _g_random(c):
    r = c.r
    k = {"dt": r.choice([None, .1]), "stable": r.random() < .7}
    if r.random() < .4:
        k["prob_dist"] = c.array(r.choice([[.3, .7], [1., 0.], [0., 1.]])
                                 if k["stable"] else [.1, .2, .3, .4],
                                 lay=r.choice("CSL"))
    return [r.randint(0, 5), r.randint(1, 2), r.randint(1, 2)], k


simple("random_state_model", _g_random,
       lambda *a, **k: H.random_state_model(*a, **k), rng=True, exact=False)


# --------------------------------------------------------- rejected calls
def _g_bad(c):
    r = c.r
    k = r.choice(["shape_add", "dt_add", "bad_tf", "bad_state", "bad_disc",
                  "bad_w", "bad_fb", "noncausal", "bad_lyap", "bad_t",
                  "bad_item", "nan_state"])
    if k == "shape_add":
        return [k, c.model(p=2, m=3), c.model(p=2, m=2)], {}
    if k == "dt_add":
        return [k, c.model(p=1, m=1, dt=None), c.model(p=1, m=1, dt=.1)], {}
    if k == "bad_tf":
        return [k, c.array([[1., 2.], [3., 4.]]), c.array([1., 2.])], {}
    if k == "bad_state":
        return [k, c.array(gmat(r, 2, 3)), c.array(gmat(r, 2, 1))], {}
    if k == "bad_disc":
        return [k, c.model(dt=None), r.choice(["nonsense", "lft"])], {}
    if k == "bad_w":
        return [k, c.model(), c.add({"t": "list", "v": ["a", "b"]})], {}
    if k == "bad_fb":
        return [k, c.model(p=2, m=3), c.model(p=2, m=2)], {}
    if k == "noncausal":
        return [k, c.array([1., 2., 3., 4.]), c.array([1., 2.])], {}
    if k == "bad_lyap":
        return [k, c.array(gmat(r, 3, 3)), c.array(gmat(r, 2, 2))], {}
    if k == "bad_t":
        return [k, c.model(dyn=True), c.array([0., .1, .25, .9])], {}
    if k == "bad_item":
        return [k, c.model(p=2, m=2), 7], {}
    return [k, c.array([[{"f": "nan"}, 1.], [0., 1.]], lay="C"),
            c.array([[1.], [1.]])], {}


def _f_bad(k, x, y):
    if k in ("shape_add", "dt_add"):
        return x + y
    if k in ("bad_tf", "noncausal"):
        return H.Transfer(x, y)
    if k == "bad_state":
        return H.State(x, y, [[1., 0.]])
    if k == "bad_disc":
        return H.discretize(x, .1, method=y)
    if k == "bad_w":
        return H.frequency_response(x, w=y)
    if k == "bad_fb":
        return H.feedback(x, y)
    if k == "bad_lyap":
        return H.lyapunov_eq_solver(x, y)
    if k == "bad_t":
        return H.simulate_step_response(x, t=y)
    if k == "bad_item":
        return x[y, y]
    return H.State(x, y, [[1., 0.]])


simple("rejected", _g_bad, _f_bad, w=1.5)


# -------------------------------------------------------------------- plots
def _g_plot(c, freq):
    r = c.r
    dt = r.choice([None, .1])
    if r.random() < .3:
        p, m = r.choice([(1, 1), (1, 2), (2, 1)])
        g = c.add({"t": "list", "v": [c.model(p, m, dt, dyn=True)
                                      for _ in range(2)]})
    else:
        g = c.model(dyn=True)
    k = {}
    if r.random() < .3:
        if freq:
            k["w"] = _g_w(c, 6)
        else:
            k["t"] = _g_t(c, dt, r.randint(5, 20))
    if r.random() < .3:
        k["gridspec_kw"] = c.add({"t": "dict", "v": {"hspace": .3}})
    if r.random() < .2:
        k["figsize"] = c.add({"t": "list", "v": [4, 3]})
    if r.random() < .2:
        k["style"] = c.add({"t": "cycler", "v": {"color": ["r", "g"]}})
    if freq:
        k.update(_may(c, .2, use_hz=[False]))
    x = r.random()
    if x < .08:
        k[r.choice(["nonsense", "num"])] = r.choice([3, "x"])
    elif x < .14:
        k["gridspec_kw"] = c.add({"t": "dict", "v": {"nonsense": .3}})
    elif x < .2:
        k["t" if not freq else "w"] = c.array([0., .1, .25, -9.])
    elif x < .24:
        g = c.add({"t": "list", "v": [g, c.array([1., 2.])]})
    return [g], k


def _g_bode(c):
    a, k = _g_plot(c, True)
    k.update(_may(c, .2, use_db=[True], use_degree=[False]))
    return a, k


def _g_nyq(c):
    a, k = _g_plot(c, True)
    k.update(_may(c, .2, negative_freqs=[False]))
    return a, k


def _plot(f):
    def g(*a, **k):
        before = set(plt.get_fignums())
        try:
            f(*a, **k)
            return len(set(plt.get_fignums()) - before)
        finally:
            for n in set(plt.get_fignums()) - before:
                plt.close(n)
    return g


simple("bode_plot", _g_bode,
       _plot(lambda *a, **k: H.bode_plot(*a, **k)), plot=True, w=.5)
simple("nyquist_plot", _g_nyq,
       _plot(lambda *a, **k: H.nyquist_plot(*a, **k)), plot=True, w=.5)
simple("step_plot", lambda c: _g_plot(c, False),
       _plot(lambda *a, **k: H.step_response_plot(*a, **k)), plot=True, w=.5)
simple("impulse_plot", lambda c: _g_plot(c, False),
       _plot(lambda *a, **k: H.impulse_response_plot(*a, **k)), plot=True,
       w=.5)

for _o in OPS.values():
    _o.setdefault("exact", True)


def names(plots=False, rng=True, exact=False):
    return [n for n, o in OPS.items() if (plots or not o["plot"]) and
            (rng or not o["rng"]) and (o["exact"] or not exact)]


KEYS = {"state_to_transfer": "output", "transfer_to_state": "output",
        "hessenberg": "output", "kalman_decomposition": "output",
        "frequency_response": "w_unit", "ker": "side", "lqr": "weight_on",
        "lyapunov": "form", "staircase": "form", "matrix_slice": "corner",
        "e_i": "output", "discretize": "method", "undiscretize": "method"}


def spoil(cx, call):
    """Give a call something that it should refuse."""
    r = cx.r
    if call["op"] in ("add", "sub", "arith"):
        return
    k = KEYS.get(call["op"])
    if k and r.random() < .4:
        call["kw"][k] = r.choice(["nonsense", "", 3])
        return
    where = [(call["args"], i) for i in range(len(call["args"]))] + \
        [(call["kw"], k) for k in sorted(call["kw"])]
    where = [(d, k) for d, k in where if isinstance(d[k], dict) and
             d[k].get("t") == "ref"]
    if not where:
        return
    d, k = r.choice(where)
    s = cx.spec(d[k])
    if s["t"] != "arr":
        d[k] = r.choice(["x", 7, None, cx.array([[[1.]]], lay="C"),
                         cx.model(), cx.model(dyn=False), d[k], d[k]])
        return
    v = np.array(S.build(dict(s, lay="C")), dtype=complex)
    x = r.random()
    if x < .3:
        v = v[None]
    elif x < .6 and v.ndim:
        v = np.concatenate([v, v[:1]])
    elif x < .75 and v.ndim > 1:
        v = np.concatenate([v, v[:, :1]], axis=1)
    elif x < .85:
        v = v[:0]
    else:
        v = v[..., None]
    d[k] = cx.array(_plain(v), "c" if np.any(v.imag) else "f",
                    r.choice("CFS") if v.ndim == 2 and v.size else "C")


def _plain(v):
    if v.ndim:
        return [_plain(x) for x in v]
    v = complex(v)
    return {"re": v.real, "im": v.imag} if v.imag else v.real


def gen_call(cx, among, bad=.07):
    r = cx.r
    n = r.choices(among, [OPS[x]["w"] for x in among])[0]
    args, kw = OPS[n]["gen"](cx)
    c = {"op": n, "args": args, "kw": kw, "seed": r.getrandbits(31)}
    if r.random() < bad:
        spoil(cx, c)
    return c


def prepare(call, shared):
    """Build arguments -> (fn, args, kw)."""
    args = [S.build(a, shared) for a in call["args"]]
    kw = {k: S.build(v, shared) for k, v in call["kw"].items()}
    return OPS[call["op"]]["fn"], args, kw


def perturb(r, s):
    """Another object of the same kind and size."""
    s = copy.deepcopy(s)

    def num(v):
        if isinstance(v, list):
            if v and not isinstance(v[0], (list, dict)):
                for j in range(len(v)):
                    if v[j] and r.random() < .5:
                        v[j] = round(v[j] * r.choice([1.1, .9, 1.25]), 5)
            else:
                for x in v:
                    num(x)
    t = s.get("t")
    if t == "State":
        x = r.random()
        if x < .2:
            s["dt"] = r.choice([None, .1, .2, 1.])
        else:
            num(s[r.choice([k for k in "abcd" if k in s])])
    elif t == "Transfer":
        x = r.random()
        if x < .2:
            s["dt"] = r.choice([None, .1, .2, 1.])
        else:
            num(s[r.choice(["num", "den"])])
    elif t == "arr":
        if s["dtype"] == "f":
            num(s["v"])
    return s


OPTIONS = [["c", "o", "d"], ["c", "r"], ["system", "matrices", "polynomials"],
           ["Hz", "rad/s"], ["left", "right"], ["nw", "ne", "sw", "se"],
           ["state", "output"], ["zoh", "foh", "tustin", "bilinear",
                                 "forward euler", "backward euler"]]


def variant(r, cx, call):
    """The same call on objects that differ a little."""
    c = copy.deepcopy(call)
    m = {}

    def walk(x):
        if isinstance(x, dict):
            if x.get("t") == "ref":
                i = x["i"]
                if i not in m:
                    s = cx.pool[i]
                    if s.get("t") in ("State", "Transfer", "arr") and \
                            r.random() < .75:
                        m[i] = cx.add(perturb(r, s))["i"]
                    else:
                        m[i] = i
                x["i"] = m[i]
            else:
                for v in x.values():
                    walk(v)
        elif isinstance(x, list):
            for v in x:
                walk(v)
    walk(c["args"])
    walk(c["kw"])
    if r.random() < .3:
        for k, v in c["kw"].items():
            if isinstance(v, bool):
                c["kw"][k] = not v
            elif isinstance(v, str) and r.random() < .5:
                for o in OPTIONS:
                    if v in o:
                        c["kw"][k] = r.choice(o)
                        break
    if r.random() < .5:
        c["seed"] = r.getrandbits(31)
    return c


def options(r, call):
    """The same call with one of its options given another value."""
    c = copy.deepcopy(call)
    where = [(c["args"], i) for i in range(len(c["args"]))] + \
        [(c["kw"], k) for k in c["kw"]]
    r.shuffle(where)
    for d, k in where:
        v = d[k]
        if isinstance(v, bool):
            d[k] = not v
        elif isinstance(v, str):
            o = [x for o in OPTIONS if v in o for x in o if x != v]
            if not o:
                continue
            d[k] = r.choice(o)
        elif isinstance(v, (int, float)):
            d[k] = v + 1 if isinstance(v, int) else round(v * 1.5, 6)
        elif r.random() < .3 and d is c["kw"]:
            del d[k]
        else:
            continue
        break
    return c


def vary_types(r, objs, share=.15):
    """Give some arrays another number type."""
    for i, s in enumerate(objs):
        if s["t"] == "arr" and s["lay"] != "L" and s["dtype"] == "f" and \
                r.random() < share:
            s = dict(s, dtype=r.choice("is"))
            if s["dtype"] == "i":
                s["v"] = _ints(s["v"])
            objs[i] = s


def _ints(v):
    if isinstance(v, list):
        return [_ints(x) for x in v]
    return 0 if isinstance(v, dict) else int(round(v))


def shrink_calls(case, key="steps"):
    """Fewer calls; objects nobody needs dropped."""
    st = case[key]
    n = len(st)
    k = n // 2
    while k >= 1:
        for i in range(0, n, k):
            c = dict(case)
            c[key] = st[:i] + st[i + k:]
            if c[key]:
                yield compact(c)
        k //= 2
    c = compact(case)
    if len(c["objs"]) < len(case["objs"]):
        yield c
    for i, s in enumerate(case["objs"]):
        if s["t"] == "arr" and s["lay"] not in "CL":
            c = copy.deepcopy(case)
            c["objs"][i]["lay"] = "C"
            yield c


def used_refs(x, out=None):
    out = set() if out is None else out
    if isinstance(x, dict):
        if x.get("t") == "ref":
            out.add(x["i"])
        else:
            for v in x.values():
                used_refs(v, out)
    elif isinstance(x, list):
        for v in x:
            used_refs(v, out)
    return out


def compact(case, key="objs"):
    """Drop unreferenced objects from case[key], renumbering references."""
    case = copy.deepcopy(case)
    objs = case[key]
    rest = {k: v for k, v in case.items() if k != key}
    need = used_refs(rest)
    grow = True
    while grow:
        n = set(need)
        for i in need:
            n |= used_refs(objs[i])
        grow = n != need
        need = n
    m = {old: new for new, old in enumerate(sorted(need))}

    def ren(x):
        if isinstance(x, dict):
            if x.get("t") == "ref":
                x["i"] = m[x["i"]]
            else:
                for v in x.values():
                    ren(v)
        elif isinstance(x, list):
            for v in x:
                ren(v)
    case[key] = [objs[i] for i in sorted(need)]
    ren(case)
    return case
