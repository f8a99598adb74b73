"""C12: random models honour their specification for every random draw."""
import copy
import random
import warnings

from .. import boot, faults, forked
from ..boot import harold as H, np
from ..canon import canon, diff

ID = "C12"
LEVEL = "exploration"
N = {"quick": 3400, "thorough": 25000}
RULE = ("A case is a history of draws from generator states, some of them "
        "composed so that the next up to 60 numbers are extreme (all bits "
        "zero or one, so that every pick is the first or last), mixed with "
        "refused draws, draws hit by a failure, other users of the "
        "generator and of other random sources. Every draw is judged by its "
        "eigenvalues and repeated from the same generator state in a fresh "
        "fork or, in one of 60 cases, in a newly started interpreter. "
        "Distinct = (order, ports, continuous, stable, permitted "
        "kinds, kinds drawn, how the state was made).")
REAL = ["harold", "NumPy", "SciPy"]
STUB = ["state of the global generator, including composed streams",
        "entropy sources", "which call fails and how"]
ASSUME = ["kinds of poles are told apart with tolerance 1e-6 (discrete 1e-7), "
          "for sampling periods of at most 0.1"]
MUST_REACH = ["draws", "composed", "repeated", "refused", "fired", "filler",
              "discrete", "unstable allowed", "spawn"]


def gports(r):
    return r.choice([4, 5, 7]) if r.random() < .05 else r.randint(1, 3)


def gspec(r):
    n = r.choice([0, 1, 1, 2, 2, 3, 3, 3, 4, 5, 5, 6, 7, 9])
    if r.random() < .06:
        n = r.choice([11, 12, 14, 17, 20])
    stable = r.random() < .45
    if r.random() < .25:
        pr = None
    else:
        k = 2 if stable else 4
        ks = r.sample(range(k), r.choice([1, 1, 2, k]))
        w = [round(r.uniform(.05, 1), 2) if j in ks else 0.
             for j in range(k)]
        pr = [x / sum(w) for x in w]
    dt = None if r.random() < .5 else \
        r.choice([.1, .05, .01, 1e-3]) if not stable or r.random() < .6 \
        else r.choice([.5, 1., 3.])
    return {"n": n, "p": gports(r), "m": gports(r), "dt": dt,
            "prob": pr, "stable": stable,
            "lay": r.choice(["list", "tuple", "array"])}


def gen(r, tier, i):
    steps = []
    for _ in range(r.randint(4, 9)):
        x = r.random()
        if x < .78:
            st = {"k": "draw", "spec": gspec(r)}
            y = r.random()
            if y < .45:
                st["seed"] = r.getrandbits(32)
            elif y < .8:
                st["seed"] = r.getrandbits(32)
                st["words"] = "".join(r.choice(["0", "1", "r"]) *
                                      r.choice([1, 2, 2, 4, 10])
                                      for _ in range(r.randint(1, 8)))[:60]
            if r.random() < .12:
                st["fault"] = {"kind": r.choice(["memory", "interrupt"]),
                               "frac": round(r.random(), 4)}
        elif x < .88:
            st = {"k": "other", "how": r.choice(
                ["python", "rng", "normal", "global", "harold", "gauss"]),
                "v": r.getrandbits(16)}
        else:
            st = {"k": "refused", "how": r.choice(
                ["sum", "len", "neg", "dt", "name"])}
        steps.append(st)
    case = {"steps": steps}
    if i % 60 == 11:
        case["spawn"] = 1 + r.getrandbits(20)
    return case


M32 = 0xffffffff


def untemper(y):
    """The Mersenne twister state word that is output as y."""
    y ^= y >> 18
    y ^= (y << 15) & 0xefc60000
    z = y
    for _ in range(5):
        z = y ^ ((z << 7) & 0x9d2c5680)
    y = z & M32
    z = y
    for _ in range(3):
        z = y ^ (z >> 11)
    return z & M32


def state(st):
    rs = np.random.RandomState(st["seed"])
    w = st.get("words")
    s = rs.get_state()
    if w:
        q = random.Random(st["seed"])
        key = np.array([q.getrandbits(32) for _ in range(624)], dtype="u4")
        for i, c in enumerate(w):
            if c != "r":
                key[i] = untemper(0 if c == "0" else M32)
        s = ("MT19937", key, 0, 0, 0.)
    return s


def draw(sp, pr=None):
    return H.random_state_model(sp["n"], sp["p"], sp["m"], dt=sp["dt"],
                                prob_dist=pr, stable=sp["stable"])


def mkpr(sp):
    pr = sp["prob"]
    if pr is None:
        return None
    return {"list": list, "tuple": tuple, "array": np.array}[sp["lay"]](pr)


def kinds(g, dt):
    """Kinds of the poles -> counts (real, pairs, integrators, axis pairs)."""
    e = np.linalg.eigvals(np.asarray(g.a, dtype=float)).astype(complex)
    real = np.abs(e.imag) <= 1e-6
    if dt is None:
        zero = real & (np.abs(e.real) <= 1e-6)
        axis = ~real & (np.abs(e.real) <= 1e-6)
    else:
        real = np.abs(e.imag) <= 1e-7
        zero = real & (np.abs(e - 1) <= 1e-7)
        axis = ~real & (np.abs(np.abs(e) - 1) <= 1e-7)
    return (int((real & ~zero).sum()), int((~real & ~axis).sum()) // 2,
            int(zero.sum()), int(axis.sum()) // 2)


def judge(g, sp):
    """-> None or (key, message)."""
    n, p, m, dt = sp["n"], sp["p"], sp["m"], sp["dt"]
    if not isinstance(g, H.State):
        return "type", "returned a %s" % type(g).__name__
    if tuple(g.shape) != (p, m) or g.d.shape != (p, m):
        return "size", "shape %s instead of %s" % (g.shape, (p, m))
    if g.NumberOfStates != n or (n and (g.a.shape, g.b.shape, g.c.shape) !=
                                 ((n, n), (n, m), (p, n))):
        return "size", "%d states instead of %d" % (g.NumberOfStates, n)
    if g.SamplingPeriod != dt:
        return "dt", "sampling period %r instead of %r" % (
            g.SamplingPeriod, dt)
    if g.SamplingSet != ("R" if dt is None else "Z"):
        return "dt", "time domain %s" % g.SamplingSet
    for k in "abcd":
        if not np.isrealobj(getattr(g, k)) or \
                not np.all(np.isfinite(getattr(g, k))):
            return "data", "%s is not finite and real" % k
    if not n:
        return None
    e = np.linalg.eigvals(np.asarray(g.a, dtype=float))
    if sp["stable"]:
        bad = (e.real >= 0).any() if dt is None else (np.abs(e) >= 1).any()
        if bad:
            return "stability", "poles %s of a stable model" % e
        if not g._isstable:
            return "stability", "stable model says it is not"
    if dt is not None and dt > .1:
        return None
    pr = sp["prob"]
    if pr is None:
        pr = [.5, .5] if sp["stable"] else [.475, .475, .025, .025]
    pr = list(pr) + [0.] * (4 - len(pr))
    got = kinds(g, dt)
    room = [n, n, n, n]
    for j in range(4):
        if pr[j] == 0.:
            room[j] = 0
    if pr[0] == 0. and pr[2] == 0.:
        room[0] = n % 2
    for j, nm in enumerate(["real", "complex", "integrator", "axis"]):
        if got[j] > room[j]:
            return "kinds", "%d poles of kind %s with prob_dist %s" % (
                got[j], nm, pr)
    if got[0] + got[2] + 2 * (got[1] + got[3]) != n:
        return "kinds", "poles of no kind: %s" % e
    return None


def other(st):
    v = st["v"]
    if st["how"] == "python":
        random.seed(v)
    elif st["how"] == "rng":
        np.random.default_rng(v).random(5)
    elif st["how"] == "normal":
        np.random.standard_normal(1 + v % 3)
    elif st["how"] == "global":
        np.random.rand(v % 7)
    elif st["how"] == "gauss":
        np.random.seed(v)
        np.random.standard_normal(1)
    else:
        H.minimal_realization(H.State(-np.eye(2), np.eye(2), np.eye(2)))


def refused(st):
    a = {"sum": {"prob_dist": [.5, .1]}, "len": {"prob_dist": [.2] * 5},
         "neg": {"prob_dist": [-.5, 1.5]}, "dt": {"dt": -1.},
         "name": {"p": "x"}}[st["how"]]
    H.random_state_model(3, **a)


def again(sp, s0):
    boot.set_poison(.734)
    np.random.set_state(s0)
    random.seed(99)
    boot._entropy.seed(99)
    try:
        return canon(draw(sp, mkpr(sp)))
    except Exception as e:
        return ("exc", type(e).__name__)


def again_all(todo):
    warnings.simplefilter("ignore")
    return [x and again(*x) for x in todo]


def run(case):
    stats, sigs, viol, trace = {}, set(), [], []

    def inc(k):
        stats[k] = stats.get(k, 0) + 1
    warnings.simplefilter("ignore")

    def history():
        out = []
        boot.set_poison(-41.9)
        for si, st in enumerate(case["steps"]):
            if st["k"] == "other":
                other(st)
                out.append(None)
                continue
            if st["k"] == "refused":
                try:
                    refused(st)
                    out.append(None)
                except Exception:
                    out.append("refused")
                continue
            sp = st["spec"]
            pr = mkpr(sp)
            if "seed" in st:
                np.random.set_state(state(st))
            s0 = np.random.get_state()
            k = kind = None
            if "fault" in st:
                kind = st["fault"]["kind"]
                _, _, ij = faults.run(lambda: draw(sp, pr), kind)
                np.random.set_state(s0)
                k = faults.pick(ij.record, st["fault"]["frac"])
            ok, v, ij = faults.run(lambda: draw(sp, pr), kind, k)
            keep = pr is None or list(pr) == list(sp["prob"])
            out.append((ok, v if ok else type(v).__name__ + ": " + str(v),
                        bool(ij.fired), s0, keep))
        return out

    hist = forked.call(history)
    if hist == ("__hang__",):
        return {"viol": [{"key": "hang", "msg": "a draw does not end"}],
                "stats": stats, "sigs": sigs}
    new = None
    if "spawn" in case:
        inc("spawn")
        new = forked.elsewhere(case["spawn"], "c12", "again_all",
                               [(st["spec"], h[3]) if isinstance(h, tuple)
                                else None
                                for st, h in zip(case["steps"], hist)])
    for si, (st, h) in enumerate(zip(case["steps"], hist)):
        if h is None:
            continue
        if h == "refused":
            inc("refused")
            continue
        ok, v, fired, s0, keep = h
        sp = st["spec"]
        inc("draws")
        inc("evals")
        bad = None
        how = "composed" if "words" in st else \
            "seeded" if "seed" in st else "running"
        if fired:
            inc("fired")
        if how == "composed":
            inc("composed")
        if not keep:
            bad = "argument", "prob_dist was changed"
        if not ok and not fired:
            bad = "draw fails", v
        got = None
        if ok:
            bad = bad or judge(v, sp)
            if sp["dt"] is not None:
                inc("discrete")
            if not sp["stable"]:
                inc("unstable allowed")
            if sp["n"] and (sp["dt"] is None or sp["dt"] <= .1):
                got = kinds(v, sp["dt"])
                if sp["prob"] and sp["prob"][0] == 0. and got[0]:
                    inc("filler")
            if not bad and not fired:
                ref = new[si] if new else forked.call(lambda: again(sp, s0))
                inc("repeated")
                d = diff(ref, canon(v), 1e-12, 1e-12)
                if d:
                    bad = "not reproduced", "same generator state in a " \
                        "fresh process: %s" % d
        perm = None if sp["prob"] is None else \
            tuple(x > 0 for x in sp["prob"])
        sigs.add((sp["n"], sp["p"] * sp["m"] > 1, sp["dt"] is None,
                  sp["stable"], perm, got, how, fired))
        trace.append((si, ok, got))
        if bad:
            viol.append({"key": bad[0], "msg": "step %d, %s state, %s: %s" % (
                si, how, {k: q for k, q in sp.items() if k != "lay"},
                bad[1]), "pin": {"steps": case["steps"][:si + 1]}})
            break
    return {"viol": viol, "stats": stats, "sigs": sigs, "trace": trace}


def shrink(case):
    st = case["steps"]
    for i in range(len(st)):
        if len(st) > 1:
            yield dict(case, steps=st[:i] + st[i + 1:])
    for i, s in enumerate(st):
        for k in ("fault", "words"):
            if k in s:
                c = copy.deepcopy(case)
                del c["steps"][i][k]
                yield c
        if s["k"] == "draw":
            for k, q in (("p", 1), ("m", 1), ("dt", None), ("prob", None)):
                if s["spec"][k] != q:
                    c = copy.deepcopy(case)
                    c["steps"][i]["spec"][k] = q
                    yield c
            if s["spec"]["n"] > 0:
                c = copy.deepcopy(case)
                c["steps"][i]["spec"]["n"] -= 1
                yield c
