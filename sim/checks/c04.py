"""C04: a model only changes through its own attributes."""
import copy

from .. import assign, boot, faults, forked, ops, specs
from ..boot import harold as H, np
from ..canon import canon, diff, model
from ..specs import Shared

ID = "C04"
LEVEL = "exploration"
N = {"quick": 4500, "thorough": 60000}
RULE = ("A case is an interleaving of library calls on shared models and "
        "caller-owned arrays, derivations from any live model, in-place "
        "edits of caller-owned or returned arrays and lists, in-place edits "
        "of a model's own data, and assignments; some calls and assignments "
        "fail part-way. Calls are repeated after what they returned has been "
        "edited. After every step each live model except the one the "
        "step was addressed to is compared with what it was. Distinct = "
        "(action, target's origin, origin of the compared model); "
        "non-trivial if the action changed its target.")
REAL = ["harold", "NumPy", "SciPy"]
STUB = ["which call fails and how (profile hook)", "random generator state"]
ASSUME = ["models are compared through public attributes, bit for bit",
          "arrays read from a model's own data attributes belong to it"]
MUST_REACH = ["call", "derive", "scribble", "edit", "assign", "failed",
              "time_vectors", "repeated"]
SKIP = {"raw_data", "attributes", "repr", "str"}
NAMES = [n for n in ops.names() if n not in SKIP]
BUILD = ["new_state", "new_transfer"]
DERIVE = ["neg", "scale", "plus", "rplus", "item", "rows", "full", "disc",
          "undisc", "convert", "back", "minreal", "fb", "hess", "kalman",
          "concat", "array", "dc", "mats", "polys", "step", "zerosum",
          "unitmul", "rzero", "addzeros", "eyemul", "minus", "self_s2t", "self_t2s", "square"]
PASS = {"derive self_t2s", "derive convert", "derive kalman", "derive mats",
        "call kalman_decomposition", "call transfer_to_state"}
TIMED = {"simulate", "step_response", "impulse_response"}


def derive(g, how):
    st = isinstance(g, H.State)
    if how == "neg":
        return -g
    if how == "scale":
        return g * 2
    if how == "plus":
        return g + np.ones(g.shape)
    if how == "rplus":
        return g + g
    if how == "item":
        return g[0, 0]
    if how == "rows":
        return g[[0], :]
    if how == "full":
        return g[:, :]
    if how == "disc":
        return H.discretize(g, .1, method="zoh")
    if how == "undisc":
        return H.undiscretize(g, method="tustin")
    if how == "convert":
        return H.state_to_transfer(g) if st else H.transfer_to_state(g)
    if how == "self_s2t":
        return H.state_to_transfer(g)
    if how == "self_t2s":
        return H.transfer_to_state(g)
    if how == "back":
        return H.transfer_to_state(H.state_to_transfer(g)) if st else \
            H.state_to_transfer(H.transfer_to_state(g))
    if how == "minreal":
        return H.minimal_realization(g)
    if how == "fb":
        return H.feedback(g, -.1 * np.ones(g.shape[::-1]))
    if how == "hess":
        return H.hessenberg_realization(g, form="o", invert=True)
    if how == "kalman":
        return H.kalman_decomposition(g)
    if how == "concat":
        return H.concatenate_state_matrices(g)
    if how == "array":
        return g.to_array()
    if how == "dc":
        return g.dcgain
    if how == "mats":
        return H.transfer_to_state(g, output="matrices")
    if how == "polys":
        return H.state_to_transfer(g, output="polynomials")
    if how == "step":
        return list(H.simulate_step_response(g))
    if how == "zerosum":
        return g + 0
    if how == "unitmul":
        return g * 1
    if how == "rzero":
        return 0. + g
    if how == "addzeros":
        return g + np.zeros(g.shape)
    if how == "eyemul":
        return g @ np.eye(g.shape[1])
    if how == "minus":
        return g - 0
    return g @ g


def gen(r, tier, i):
    cx = ops.Cx(r, reuse=.7)
    steps = []
    for _ in range(r.randint(1, 2)):
        c = ops.gen_call(cx, BUILD) if r.random() < .7 else \
            ops.gen_call(cx, NAMES)
        steps.append({"k": "call", "call": c})
    for _ in range(r.randint(3, 10)):
        x = r.random()
        f = {"kind": r.choice(faults.ALL), "frac": r.random()} \
            if r.random() < .08 else None
        if x < .24:
            st = {"k": "call", "call": ops.gen_call(cx, NAMES)}
            if f:
                st["fault"] = f
        elif x < .3:
            st = {"k": "call", "call": ops.gen_call(cx, BUILD)}
        elif x < .5:
            st = {"k": "derive", "i": r.getrandbits(16),
                  "how": r.choice(DERIVE), "seed": r.getrandbits(30)}
        elif x < .72:
            st = {"k": "scribble", "i": r.getrandbits(16),
                  "last": r.random() < .6,
                  "how": r.choice(["all", "one", "grow"])}
        elif x < .87:
            st = {"k": "edit", "i": r.getrandbits(16),
                  "last": r.random() < .5,
                  "attr": r.getrandbits(8)}
        else:
            # a model of the history gets a new value from a caller's array
            st = {"k": "assign", "i": r.getrandbits(16),
                  "last": r.random() < .5,
                  "which": r.getrandbits(8), "lay": r.choice("CFTSV"),
                  "shift": round(r.uniform(.1, 1), 2)}
            if f:
                st["fault"] = f
        steps.append(st)
    return {"objs": cx.pool, "steps": steps}


class World:
    def __init__(self):
        self.models = []        # [obj, origin, expected]
        self.things = []        # [array or list, origin]
        self.times = []         # [array, snapshot, partner array]

    def add_model(self, g, origin):
        for m in self.models:
            if m[0] is g:
                return m
        self.models.append([g, origin, model(g)])
        return None

    def add_thing(self, a, origin):
        if isinstance(a, np.ndarray) and a.dtype == object:
            for x in a.ravel().tolist():
                self.add_thing(x, origin)
        elif isinstance(a, np.ndarray):
            if a.size and not any(t[0] is a for t in self.things):
                self.things.append([a, origin])
        elif isinstance(a, (list, tuple)):
            if isinstance(a, list) and a and \
                    not any(t[0] is a for t in self.things):
                self.things.append([a, origin])
            for x in a:
                if isinstance(x, (list, tuple, np.ndarray)):
                    self.add_thing(x, origin)

    def harvest(self, v, origin):
        """Register everything a call returned; models returned again."""
        again = []
        if isinstance(v, (H.State, H.Transfer)):
            m = self.add_model(v, origin)
            if m:
                again.append(m)
        elif isinstance(v, (list, tuple)):
            for x in v:
                if isinstance(x, (H.State, H.Transfer)):
                    again += self.harvest(x, origin)
            self.add_thing(v, origin)
        else:
            self.add_thing(v, origin)
        return again


def scribble(a, how):
    """Edit in place -> changed?"""
    if isinstance(a, list):
        if how == "grow":
            a.append(1.)
            return True
        for j, x in enumerate(a):
            if isinstance(x, (int, float, complex)) and \
                    not isinstance(x, bool):
                a[j] = x + 1.5
                if how == "one":
                    break
        return True
    if not a.flags.writeable:
        return False
    if a.dtype.kind not in "fciub":
        return False
    with np.errstate(all="ignore"):
        if how == "one":
            ix = np.unravel_index(a.size // 2, a.shape)
            a[ix] = not a[ix] if a.dtype.kind == "b" else a[ix] + 2
        elif a.dtype.kind == "b":
            np.logical_not(a, out=a)
        else:
            a[...] = a + a.dtype.type(2)
    return True


class Kept:
    """Edits an array or list and puts it back."""

    def __init__(self, a):
        self.a = a
        self.old = list(a) if isinstance(a, list) else a.copy()

    def __enter__(self):
        return scribble(self.a, "all")

    def __exit__(self, *e):
        if isinstance(self.a, list):
            self.a[:] = self.old
        elif self.a.flags.writeable:
            self.a[...] = self.old


def own_arrays(g):
    if isinstance(g, H.State):
        v = [g.a, g.b, g.c, g.d]
    else:
        v = []
        for x in (g.num, g.den):
            v += [z for y in x for z in y] if isinstance(x, list) else [x]
    return [x for x in v if isinstance(x, np.ndarray) and x.size and
            x.flags.writeable]


ATTRS = {"State": ["a", "b", "c", "d", "SamplingPeriod",
                   "DiscretizationMatrix"],
         "Transfer": ["num", "den", "SamplingPeriod",
                      "DiscretizationMatrix"]}


def relay(v, lay):
    if isinstance(v, list):
        return [relay(x, lay) for x in v]
    if v.ndim != 2 or not v.size:
        return np.array(v)
    return specs.build_array({"v": v.tolist(), "lay": lay, "dtype": "f"})


def new_value(g, st):
    at = ATTRS[type(g).__name__]
    at = at[st["which"] % len(at)]
    if at == "SamplingPeriod":
        return at, None if g.SamplingPeriod else .25
    if at == "DiscretizationMatrix":
        return at, specs.build_array({"v": [[1., .1], [2., .1]],
                                      "lay": st["lay"], "dtype": "f"})
    v = relay(getattr(g, at), st["lay"])

    def shift(x):
        if isinstance(x, list):
            for y in x:
                shift(y)
        elif x.size:
            x[...] = x + st["shift"]
    shift(v)
    return at, v


def run(case):
    stats, sigs, viol = {}, set(), []
    trace = []

    def inc(k, n=1):
        stats[k] = stats.get(k, 0) + n
    sh = Shared(case["objs"]).build_all()
    w = World()
    for j, o in enumerate(sh.objs):
        if isinstance(o, (H.State, H.Transfer)):
            w.add_model(o, "pool")
        else:
            w.add_thing(o, "caller")

    def go(fn, f):
        kind = k = None
        if f:
            kind = f["kind"]
            k = faults.pick(forked.call(
                lambda: faults.run(fn, kind)[2].record), f["frac"])
        return faults.run(fn, kind, k)

    def aliased(v, si, what):
        """Would editing what went in or came out change a model?"""
        t = World()
        t.add_thing(v if isinstance(v, list) else [v], "")
        own = [x for m in w.models for x in own_arrays(m[0])]
        for a, _ in t.things[:12]:
            if any(a is x for x in own):
                continue
            with Kept(a) as changed:
                inc("probes")
                bad = changed and next(
                    ((m, d) for m, d in
                     ((m, diff(m[2], model(m[0]))) for m in w.models[-8:])
                     if d), None)
            if bad:
                viol.append({
                    "key": "%s: shares an array with model from %s" % (
                        what, bad[0][1]),
                    "msg": "step %d: editing an array that went into or came "
                    "out of '%s' changes a model (from %s): %s" % (
                        si, what, bad[0][1], bad[1])})
                return

    def repeated(fn, seed, v, given, si, what):
        """Does the same call give the same after its result was edited?"""
        t, u = World(), World()
        t.add_thing(v if isinstance(v, list) else [v], "")
        u.add_thing(given, "")
        known = [x[0] for x in u.things if isinstance(x[0], np.ndarray)]
        known += [x for m in w.models for x in own_arrays(m[0])]
        edits = [Kept(a) for a, _ in t.things if isinstance(a, np.ndarray)
                 and not any(np.may_share_memory(a, x) for x in known)]
        if not edits:
            return
        old = canon(v)
        for e in edits:
            e.__enter__()
        boot.seed_all(seed)
        ok, x, _ = faults.run(fn)
        now = canon(x) if ok else ("exc", type(x).__name__)
        for e in edits:
            e.__exit__()
        inc("repeated")
        d = diff(old, now, 1e-9, 1e-12)
        if d:
            viol.append({
                "key": "%s: result kept in the model" % what,
                "msg": "step %d: '%s' gives something else after what it "
                "returned has been edited: %s" % (si, what, d)})
    for si, st in enumerate(case["steps"]):
        target = None           # the model this step may change
        io = []                 # what went in and came out
        touched = None          # the array this step edits
        what = st["k"]
        again = []
        if what == "call":
            c = st["call"]
            fn, args, kw = ops.prepare(c, sh)
            boot.seed_all(c["seed"])
            ok, v, ij = go(lambda: fn(*args, **kw), st.get("fault"))
            what = "call " + c["op"]
            inc("call")
            if ij.fired:
                inc("failed")
            io = [args, list(kw.values())]
            if ok:
                if not ij.fired:
                    repeated(lambda: fn(*args, **kw), c["seed"], v,
                             [list(args), list(kw.values())], si, what)
                io.append(v)
                again = w.harvest(v, c["op"])
                if c["op"] in TIMED and isinstance(v, tuple):
                    for x in v:
                        if isinstance(x, np.ndarray) and x.ndim == 1:
                            w.times.append([x, x.copy(), c["op"]])
                            inc("time_vectors")
        elif what == "derive":
            src = w.models[st["i"] % len(w.models)] if w.models else None
            if src is None:
                continue
            boot.seed_all(st["seed"])
            ok, v, ij = go(lambda: derive(src[0], st["how"]), None)
            what = "derive " + st["how"]
            inc("derive")
            if ok:
                repeated(lambda: derive(src[0], st["how"]), st["seed"], v,
                         [], si, what)
                io = [v]
                again = w.harvest(v, st["how"])
        elif what == "scribble":
            if not w.things:
                continue
            n = len(w.things)
            t = w.things[-1 - st["i"] % min(n, 4) if st["last"]
                         else st["i"] % n]
            touched = t[0]
            if not scribble(t[0], st["how"]):
                continue
            inc("scribble")
            what = "scribble on " + t[1]
        elif what in ("edit", "assign"):
            if not w.models:
                continue
            n = len(w.models)
            target = w.models[-1 - st["i"] % min(n, 2) if st["last"]
                              else st["i"] % n]
            g = target[0]
            if what == "edit":
                av = own_arrays(g)
                if not av:
                    continue
                scribble(av[st["attr"] % len(av)], "all")
                inc("edit")
                what = "edit of " + target[1]
            else:
                at, val = new_value(g, st)
                ok, v, ij = go(lambda: setattr(g, at, val), st.get("fault"))
                inc("assign")
                if ij.fired:
                    inc("failed")
                w.add_thing(val, "assigned " + at)
                io = [val]
                what = "assign %s of %s" % (at, target[1])
        inc("evals")
        trace.append(what)
        for m in again:
            # a call handed out a model that somebody already has; two calls
            # are documented to pass the model through
            if what in PASS and isinstance(m[0], H.State) and (
                    "kalman" not in what or m[0].NumberOfStates == 0):
                continue
            viol.append({"key": "%s returns a model already in use" % what,
                         "msg": "step %d: %s returned the same object that "
                         "is already known from %s" % (si, what, m[1])})
        for m in w.models:
            if m is target:
                m[2] = model(m[0])
                continue
            now = model(m[0])
            d = diff(m[2], now)
            sigs.add((what, m[1], type(m[0]).__name__))
            if d:
                viol.append({
                    "key": "%s changes model from %s" % (what, m[1]),
                    "msg": "step %d: %s changed another model (from %s): %s"
                    % (si, what, m[1], d)})
        for t in w.times:
            if t[0] is touched:
                t[1] = t[0].copy()
            elif not np.array_equal(t[0], t[1]):
                viol.append({
                    "key": "time vector of %s" % t[2],
                    "msg": "step %d: %s changed the time vector returned "
                    "earlier by %s" % (si, what, t[2])})
        if io and not viol:
            aliased(io, si, what)
        if viol:
            v0 = viol[0]
            v0["pin"] = {"steps": case["steps"][:si + 1]}
            break
    return {"viol": viol[:1], "stats": stats, "sigs": sigs, "trace": trace}


def shrink(case):
    for c in ops.shrink_calls(case):
        yield c
    for i, s in enumerate(case["steps"]):
        if s.get("fault"):
            c = copy.deepcopy(case)
            del c["steps"][i]["fault"]
            yield c
        if s["k"] in ("derive", "scribble", "edit", "assign") and s["i"] > 9:
            c = copy.deepcopy(case)
            c["steps"][i]["i"] = s["i"] % 10
            yield c
