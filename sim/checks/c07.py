"""C07: model reduction and what is built on it, for every random draw."""
from .. import boot, specs
from ..boot import harold as H, np
from scipy.linalg import svdvals
from scipy.optimize import minimize

ID = "C07"
LEVEL = "exploration"
N = {"quick": 1800, "thorough": 14000}
RULE = ("A case is a model with known controllable and observable part (or a "
        "pair of matrices for the distance bounds) and a list of generator "
        "states; every call is repeated for each generator state. Some "
        "generator states are reached by earlier draws of other library "
        "calls instead of seeding. Distinct = (structure of the model, "
        "call, generator state); non-trivial if the model has something to "
        "remove or the call drew from the generator.")
REAL = ["harold", "NumPy", "SciPy"]
STUB = ["state of NumPy's generators"]
ASSUME = ["structures are well conditioned: modes of the model are separated "
          "and entries of B and C are zero or between 0.5 and 2; in a third "
          "of the models some blocks are scaled down by up to 1e-4",
          "true distance is the best of a multi-start descent"]
MUST_REACH = ["minreal", "dcgain", "freq", "bounds", "draws", "removed",
              "integrator", "gain", "transfer", "weak"]
TOL = 1e-6


def gblocks(r, n, dt, kind):
    a = specs.gmodal(r, n, dt, kind)
    out, i = [], 0
    while i < n:
        k = 2 if i + 1 < n and a[i, i + 1] != 0 else 1
        out.append(specs.rnd(a[i:i + k, i:i + k].tolist(), 6))
        i += k
    return out


def sgn(r, p, m):
    return [[round(r.choice([-1, 1]) * r.uniform(.5, 2), 3)
             for _ in range(m)] for _ in range(p)]


def gen(r, tier, i):
    dt = r.choice([None, None, .1, 1.])
    nd = 10 if tier == "quick" else 16
    draws = [r.getrandbits(31) for _ in range(nd)]
    x = r.random()
    case = {"dt": dt, "draws": draws, "warm": r.random() < .3}
    if x < .62:
        n = r.choice([1, 2, 2, 3, 3, 4, 5, 6])
        p, m = r.choice([(1, 1), (1, 1), (1, 2), (2, 1), (2, 2), (2, 3),
                         (3, 2), (3, 3)])
        kind = r.choice(["stable", "stable", "mixed"])
        bl = []
        mode = r.choice(["mix", "mix", "mix", "minimal", "none"])
        for a in gblocks(r, n, dt, kind):
            k = len(a)
            w = {"mix": r.choice(["co", "co", "c", "o", "n"]),
                 "minimal": "co", "none": r.choice("con")}[mode]
            bl.append({"a": a,
                       "b": sgn(r, k, m) if "c" in w
                       else [[0.] * m for _ in range(k)],
                       "c": sgn(r, p, k) if "o" in w
                       else [[0.] * k for _ in range(p)]})
        if r.random() < .35:
            # weakly coupled, but far above the tolerance
            for x in r.sample(bl, r.randint(1, len(bl))):
                q = r.choice("bc")
                f = 10 ** -r.uniform(2.5, 4)
                x[q] = [[round(v * f, 9) for v in row] for row in x[q]]
                case["weak"] = True
        if r.random() < .25:
            # an integrator that reaches some channels only
            b, c = [[0.] * m], [[0.] for _ in range(p)]
            if r.random() < .6:
                b[0][r.randrange(m)] = 1.
            if r.random() < .6:
                c[r.randrange(p)][0] = 1.
            bl.append({"a": [[1.]] if dt else [[0.]], "b": b, "c": c})
            case["integ"] = True
        case.update(k="model", blocks=bl, p=p, m=m, d=specs.gmat(r, p, m))
        if not case.get("integ") and r.random() < .8:
            nn = sum(len(b["a"]) for b in bl)
            case["t"] = specs.rnd(specs.gsim(r, nn).tolist(), 6)
        case["w"] = [round(10 ** r.uniform(-2, 0), 4) for _ in range(4)]
    elif x < .65:
        gspread(r, case)
    elif x < .7:
        p, m = r.choice([(1, 1), (1, 2), (2, 1), (2, 2)])
        case.update(k="gain", spec=specs.ggain(r, p, m, dt))
    elif x < .76:
        case.update(k="tf", **gtf(r, dt))
    else:
        n, m = r.choice([1, 2, 3, 4, 5]), r.choice([1, 1, 2, 3])
        f = specs.gmat(r, n, n)
        sc = 10. ** r.choice([0, 0, -1, -3, -5])
        g = [[round(v * sc, 9) for v in row] for row in specs.gmat(r, n, m)]
        y = r.random()
        if y < .25:             # uncontrollable
            for j in range(1, n):
                f[0][j] = 0.
            g[0] = [0.] * m
        elif y < .45 and n > 1:     # nearly
            for j in range(1, n):
                f[0][j] = round(f[0][j] * 1e-4, 9)
            g[0] = [round(v * 1e-4, 12) for v in g[0]]
        elif y < .55:
            f = [[f[i][j] if j <= i else 0. for j in range(n)]
                 for i in range(n)]
        case.update(k="bounds", f=f, g=g, lay=r.choice("CFTSV"),
                    start=[[round(r.gauss(0, 2), 3), round(r.gauss(0, 2), 3)]
                           for _ in range(6)], draws=draws * 2)
        case["draws"] = [d + j for j, d in enumerate(draws * 3)]
    return case


def gspread(r, case):
    """Real modes driven (or seen) with very different strengths, one not
    at all; many draws."""
    n = r.choice([4, 5, 5, 6])
    dt = case["dt"]
    if dt:
        e = sorted(r.sample([x / 10 for x in range(-9, 10)], n + 1))
    else:
        e = [round(-1 - .25 * j, 3) for j in range(n)] + [-7.]
    bl = []
    for j, x in enumerate(e):
        b, c = 10 ** -r.uniform(0, 4), r.uniform(.5, 2)
        bl.append([round(b, 9), round(c, 3)])
    bl[r.randrange(n + 1) if dt else -1][0] = 0.
    if r.random() < .5:
        bl = [y[::-1] for y in bl]
    case.update(k="model", p=1, m=1, d=[[0.]], weak=True, w=[.01, .1],
                only="minreal", blocks=[{"a": [[x]], "b": [[y[0]]],
                                         "c": [[y[1]]]}
                                        for x, y in zip(e, bl)])
    q = np.linalg.qr(np.array([[r.gauss(0, 1) for _ in range(n + 1)]
                               for _ in range(n + 1)]))[0]
    case["t"] = specs.rnd(q.tolist(), 12)
    case["draws"] = [r.getrandbits(31) for _ in range(150)]


def gtf(r, dt):
    """Fractions with common roots at known places."""
    p, m = r.choice([(1, 1), (1, 1), (1, 2), (2, 2)])
    pool = [.9, .55, .2, -.3, -.65] if dt else [-.3, -.8, -1.7, -3.1, -5.]
    out = []
    for _ in range(p):
        row = []
        for _ in range(m):
            rr = list(pool)
            r.shuffle(rr)
            ncom = r.choice([0, 1, 1, 2])
            row.append({"com": rr[:ncom], "z": [x + .07 for x in
                                                rr[ncom:ncom + 1]]
                        if r.random() < .5 else [],
                        "p": rr[ncom:ncom + r.choice([1, 2])],
                        "k": round(r.uniform(.5, 2), 2)})
        out.append(row)
    return {"tf": out}


def settle(case, seed):
    """Put the generator into one of the states of the case."""
    boot.seed_all(seed)
    if case["warm"]:
        H.random_state_model(2, 1, 1)
        H.cancellation_distance(np.array([[1., 2.], [0., 3.]]),
                                np.array([[1.], [1.]]))


def truth(case):
    n = sum(len(b["a"]) for b in case["blocks"])
    p, m = case["p"], case["m"]
    a, b, c = np.zeros((n, n)), np.zeros((n, m)), np.zeros((p, n))
    i = order = 0
    for x in case["blocks"]:
        k = len(x["a"])
        a[i:i + k, i:i + k] = x["a"]
        b[i:i + k] = x["b"]
        c[:, i:i + k] = x["c"]
        if np.any(b[i:i + k]) and np.any(c[:, i:i + k]):
            order += k
        i += k
    return a, b, c, np.array(case["d"]), order


def ev(a, b, c, d, z):
    n = a.shape[0]
    if n == 0:
        return d.astype(complex)
    return c @ np.linalg.solve(z * np.eye(n) - a, b) + d


def parts(h):
    if h.NumberOfStates == 0:
        p, m = h.shape
        return (np.zeros((0, 0)), np.zeros((0, m)), np.zeros((p, 0)),
                np.asarray(h.d))
    return h.a, h.b, h.c, h.d


def off(x, y):
    """Relative deviation, infinite entries must be infinite in both."""
    x, y = np.asarray(x, complex), np.asarray(y, complex)
    if x.shape != y.shape:
        return np.inf
    big = np.abs(y) > 1e12
    if np.any((np.abs(x) > 1e12) != big) or np.isnan(x).any():
        return np.inf
    x, y = x[~big], y[~big]
    if not x.size:
        return 0.
    return np.abs(x - y).max() / (1. + np.abs(y).max())


def run(case):
    stats, sigs, viol, trace = {}, set(), [], []

    def inc(k, n=1):
        stats[k] = stats.get(k, 0) + n

    def bad(key, msg, seed):
        viol.append({"key": key, "msg": "generator state %d: %s"
                     % (seed, msg), "pin": {"draws": [seed]}})
    {"model": r_model, "gain": r_gain, "tf": r_tf,
     "bounds": r_bounds}[case["k"]](case, inc, bad, sigs, viol, trace)
    return {"viol": viol[:1], "stats": stats, "sigs": sigs, "trace": trace}


def call(f, case, seed, inc, bad, what):
    settle(case, seed)
    s0 = np.random.get_state()[2]
    inc("evals")
    inc(what)
    try:
        v = f()
    except Exception as e:
        bad(what + " raises", "%s raises %s: %s"
            % (what, type(e).__name__, str(e)[:80]), seed)
        return None
    if np.random.get_state()[2] != s0:
        inc("draws")
    return v


def smallest(F, G):
    """s(p): smallest singular value of [F - pI, G]."""
    n = F.shape[0]

    def s(x):
        return svdvals(np.c_[F - (x[0] + 1j * x[1]) * np.eye(n), G])[-1]
    return s


def nearest(F, G, starts=(), it=250, k=8):
    """Estimate from above of the distance to uncontrollability."""
    s = smallest(F, G)
    e = np.linalg.eigvals(F)
    st = [(x.real, x.imag) for x in e]
    st += [((x + y).real / 2, (x + y).imag / 2) for i, x in enumerate(e)
           for y in e[:i]]
    st = sorted(st + [tuple(x) for x in starts], key=s)
    return min(minimize(s, x, method="Nelder-Mead",
                        options={"maxiter": it, "xatol": 1e-9,
                                 "fatol": 1e-13}).fun for x in st[:k])


def apart(case):
    """Are the parts that must stay far enough from being removable?"""
    a, b, c, _, _ = truth(case)
    i, keep = 0, []
    for x in case["blocks"]:
        k = len(x["a"])
        if np.any(b[i:i + k]) and np.any(c[:, i:i + k]):
            keep += range(i, i + k)
        i += k
    if not keep:
        return True
    a = a[np.ix_(keep, keep)]
    return min(nearest(a, b[keep], it=120, k=4),
               nearest(a.T, c[:, keep].T, it=120, k=4)) > 3e-5


def r_model(case, inc, bad, sigs, viol, trace):
    a, b, c, d, order = truth(case)
    n, dt = a.shape[0], case["dt"]
    if case.get("weak"):
        if not apart(case):
            inc("too_weak")
            return
        inc("weak")
    k = {"dt": dt} if dt else {}
    if case.get("t"):
        t = np.array(case["t"])
        ti = np.linalg.inv(t)
        G = H.State(ti @ a @ t, ti @ b, c @ t, d, **k)
    else:
        G = H.State(a, b, c, d, **k)
    pts = [.3 + .7j, .1 + 1.5j, -.2 + 2.3j, 3.]
    ref = [ev(a, b, c, d, z) for z in pts]
    z0 = 1. if dt else 0.
    if case.get("integ"):
        inc("integrator")
        dc = np.array(d, dtype=float)
        i = 0
        for x in case["blocks"][:-1]:
            q = len(x["a"])
            dc = dc + np.array(x["c"]) @ np.linalg.solve(
                z0 * np.eye(q) - np.array(x["a"]), np.array(x["b"]))
        x = case["blocks"][-1]
        dc = np.where(np.array(x["c"]) @ np.array(x["b"]) != 0, np.inf, dc)
    else:
        dc = ev(a, b, c, d, z0).real
    w = np.array(case["w"])
    if dt:
        w = w / dt * .4
        zz = np.exp(2j * np.pi * w * dt)
    else:
        zz = 2j * np.pi * w
    fr = np.stack([ev(a, b, c, d, z) for z in zz], axis=-1)
    if fr.shape[:2] == (1, 1):
        fr = fr[0, 0]
    sig = tuple((len(x["a"]), bool(np.any(x["b"])), bool(np.any(x["c"])))
                for x in case["blocks"])
    if order < n:
        inc("removed")
    for seed in case["draws"]:
        h = call(lambda: H.minimal_realization(G), case, seed, inc, bad,
                 "minreal")
        if h is not None:
            if h.NumberOfStates != order:
                bad("order", "%d states left, minimal is %d of %d"
                    % (h.NumberOfStates, order, n), seed)
            else:
                e = max(off(ev(*parts(h), z), v) for z, v in zip(pts, ref))
                if not e < TOL:
                    bad("behaviour", "reduced model is off by %.1e" % e, seed)
            if h.SamplingPeriod != dt:
                bad("sampling", "sampling period %s became %s"
                    % (dt, h.SamplingPeriod), seed)
            if h.shape != G.shape:
                bad("shape", "%s became %s" % (G.shape, h.shape), seed)
        if case.get("only"):
            if viol:
                return
            continue
        v = call(lambda: G.dcgain, case, seed, inc, bad, "dcgain")
        if v is not None:
            e = off(np.atleast_2d(v), dc)
            if not e < TOL:
                bad("dcgain", "DC gain %s, true %s" % (
                    np.asarray(v).tolist(), dc.tolist()), seed)
        v = call(lambda: H.frequency_response(G, w=w, w_unit="Hz",
                                              output_unit="Hz",
                                              use_minreal=True),
                 case, seed, inc, bad, "freq")
        if v is not None:
            e = off(np.asarray(v[0]), fr)
            if not e < TOL:
                bad("freq", "response with reduction is off by %.1e" % e,
                    seed)
        if viol:
            return
        if order < n:
            sigs.add((sig, dt, seed))
        trace.append((seed, None if h is None else h.NumberOfStates))


def r_gain(case, inc, bad, sigs, viol, trace):
    inc("gain")
    G = specs.build(case["spec"])
    A = G.to_array()
    for seed in case["draws"][:2]:
        h = call(lambda: H.minimal_realization(G), case, seed, inc, bad,
                 "minreal")
        if h is None:
            return
        if type(h) is not type(G) or h.SamplingPeriod != G.SamplingPeriod:
            bad("gain", "gain with sampling period %s became %s with %s" % (
                G.SamplingPeriod, type(h).__name__, h.SamplingPeriod), seed)
        elif off(h.to_array(), A) > 1e-12:
            bad("gain", "%s became %s" % (A.tolist(), h.to_array().tolist()),
                seed)
        v = call(lambda: G.dcgain, case, seed, inc, bad, "dcgain")
        if v is not None and off(np.atleast_2d(v), A) > 1e-12:
            bad("gain dcgain", "%s has DC gain %s" % (A.tolist(), v), seed)
        if viol:
            return


def r_tf(case, inc, bad, sigs, viol, trace):
    inc("transfer")
    dt = case["dt"]
    k = {"dt": dt} if dt else {}
    tf = case["tf"]
    num = [[np.atleast_1d(x["k"] * np.poly(x["com"] + x["z"])).tolist() for x in row]
           for row in tf]
    den = [[np.poly(x["com"] + x["p"]).tolist() for x in row] for row in tf]
    siso = len(tf) == len(tf[0]) == 1
    G = H.Transfer(num[0][0], den[0][0], **k) if siso else \
        H.Transfer(num, den, **k)
    z0 = 1. if dt else 0.

    def val(z):
        return np.array([[x["k"] * np.prod([z - q for q in x["z"]]) /
                          np.prod([z - q for q in x["p"]]) for x in row]
                         for row in tf])
    for seed in case["draws"][:3]:
        h = call(lambda: H.minimal_realization(G), case, seed, inc, bad,
                 "minreal")
        if h is None:
            return
        nn = [[h.num]] if siso else h.num
        dd = [[h.den]] if siso else h.den
        if h.SamplingPeriod != dt:
            bad("sampling", "sampling period %s became %s"
                % (dt, h.SamplingPeriod), seed)
        for i, row in enumerate(tf):
            for j, x in enumerate(row):
                if np.size(dd[i][j]) - 1 != len(x["p"]):
                    bad("order", "fraction %s keeps %d poles, minimal is %d"
                        % ((i, j), np.size(dd[i][j]) - 1, len(x["p"])), seed)
                for z in (.3 + .7j, 2.1 - .4j):
                    v = np.polyval(np.ravel(nn[i][j]), z) / \
                        np.polyval(np.ravel(dd[i][j]), z)
                    if off(v, val(z)[i, j]) > TOL:
                        bad("behaviour", "fraction %s is off" % ((i, j),),
                            seed)
        v = call(lambda: G.dcgain, case, seed, inc, bad, "dcgain")
        if v is not None and off(np.atleast_2d(v), val(z0)) > TOL:
            bad("dcgain", "DC gain %s, true %s" % (
                np.asarray(v).tolist(), val(z0).tolist()), seed)
        if viol:
            return
        sigs.add((str(tf)[:200], dt, seed))


def r_bounds(case, inc, bad, sigs, viol, trace):
    lay = case["lay"]
    F = specs.build_array({"v": case["f"], "lay": lay, "dtype": "f"})
    G = specs.build_array({"v": case["g"], "lay": lay, "dtype": "f"})
    n = F.shape[0]
    sc = np.abs(np.c_[F, G]).max() + 1e-300
    tiny = 1e-11 * sc

    s = smallest(F, G)
    dist = nearest(F, G, case["start"])
    for seed in case["draws"]:
        v = call(lambda: H.cancellation_distance(F, G), case, seed, inc, bad,
                 "bounds")
        if v is None:
            return
        u2, u1, l0, ef, rad = v
        true = min(dist, s((np.real(ef), np.imag(ef))))
        if not l0 <= true * (1 + 1e-6) + tiny:
            bad("lower bound", "lower bound %g exceeds the distance %g"
                % (l0, true), seed)
        elif not u2 >= true * (1 - 1e-5) - tiny:
            # look closer before blaming it
            true = min(true, nearest(F, G, case["start"], 600, 99))
            if not u2 >= true * (1 - 1e-5) - tiny:
                bad("upper bound", "upper bound %g is below the distance %g"
                    % (u2, true), seed)
        elif not (l0 <= u2 + tiny and u2 <= u1 * (1 + 1e-9) + tiny):
            bad("order of bounds", "lower %g, upper %g, softer upper %g"
                % (l0, u2, u1), seed)
        if viol:
            return
        sigs.add(("bounds", n, G.shape[1], seed))
        trace.append((seed, "%.6g" % u2))


def shrink(case):
    if case["warm"]:
        yield dict(case, warm=False)
    if case["k"] == "model":
        if case.get("t"):
            yield {k: v for k, v in case.items() if k != "t"}
        m = len(case["blocks"]) - (1 if case.get("integ") else 0)
        for i in range(m):
            if len(case["blocks"]) > 1 and not case.get("t"):
                yield dict(case, blocks=case["blocks"][:i] +
                           case["blocks"][i + 1:])
