"""Fault seam: count the calls harold makes and make one of them fail."""
import dis
import sys

from . import boot
from numpy.linalg import LinAlgError

KERNELS = {"svd", "svdvals", "eig", "eigvals", "eigh", "eigvalsh", "qz",
           "ordqz", "schur", "lstsq", "matrix_rank", "rsf2csf", "expm",
           "logm", "orth", "null_space", "pinv", "cond"}
_SKIP = {"__enter__", "__exit__", "__del__", "acquire", "release"}
CO_GEN = 0x20 | 0x80 | 0x200

KINDS = ("memory", "interrupt", "kernel")
# "break": an interrupt at the other points where the interpreter delivers
# one, after a call has returned and at the end of a loop round.  Code that
# saves and restores a setting cannot be made safe against it, hence it is
# not used for C06.
ALL = KINDS + ("break",)


_heads = {}


def loop_heads(code):
    """Lines at which a loop of this function begins another round."""
    h = _heads.get(code)
    if h is None:
        h = set()
        line, lines, jumps, after = None, {}, [], {}
        prev = None
        for x in dis.get_instructions(code):
            if x.positions and x.positions.lineno:
                line = x.positions.lineno
            lines[x.offset] = line
            if prev is not None:
                after[prev].append(x.offset)
            prev = x.offset
            after[prev] = []
            if "JUMP" in x.opname or x.opname in ("FOR_ITER", "SEND"):
                after[prev].append(x.argval)
            if x.opname.startswith("JUMP_BACKWARD"):
                jumps.append((x.offset, x.argval))
            if x.opname.startswith(("JUMP_", "RETURN_V", "RETURN_C", "RAISE",
                                    "RERAISE")):
                prev = None
        for a, b in jumps:
            # handlers of exceptions jump back, too, but to no loop: without
            # an exception there is no way from b to a
            seen, todo = set(), [b]
            while todo:
                y = todo.pop()
                if y not in seen:
                    seen.add(y)
                    todo += after.get(y, ())
            if a in seen and lines.get(a) and lines.get(b):
                h.add(min(lines[a], lines[b]))
        _heads[code] = h
    return h


class Loops:
    """Says whether a line event is the beginning of another round."""
    __slots__ = ("heads", "last")

    def __init__(self, code):
        self.heads = loop_heads(code)
        self.last = 0

    def __call__(self, line):
        back = line <= self.last and line in self.heads
        self.last = line
        return back


class Injector:
    """Profile hook. With target=None only counts.

    `points` is the number of fault points seen for the given kind; with
    target=k the k-th one (1-based) raises.
    """

    def __init__(self, kind, target=None, record=False):
        self.kind = kind
        self.target = target
        self.points = 0
        self.fired = None
        # the places, when only counting
        self.record = [] if record or target is None else None
        self.watch = None       # fingerprint of something while counting
        self.hot = {}           # fault point -> what was different there

    def _make(self, name):
        self.fired = name
        if self.kind == "memory":
            return MemoryError("simulated allocation failure")
        if self.kind in ("interrupt", "break", "loop"):
            return KeyboardInterrupt("simulated interrupt")
        return LinAlgError("simulated: did not converge")

    def _hit(self, name):
        self.points += 1
        if self.record is not None:
            self.record.append(name)
            if self.watch:
                now = self.watch()
                if now != self.first:
                    self.hot[self.points] = now
        if self.points == self.target:
            raise self._make(name)

    def trace(self, frame, event, arg):
        """Trace hook for loop ends in harold frames (kind "break")."""
        co = frame.f_code
        if co.co_flags & CO_GEN or co.co_name in _SKIP or \
                not boot.is_harold_file(co.co_filename):
            return None
        back = Loops(co)
        if not back.heads:
            return None

        def local(fr, ev, arg):
            if ev == "line" and back(fr.f_lineno):
                self._hit(co.co_name + " loop")
            return local
        return local

    def _returned(self, frame, event, arg):
        co = frame.f_code
        if co.co_flags & CO_GEN:
            return
        if event == "c_return":
            if not boot.is_harold_file(co.co_filename):
                return
            name = getattr(arg, "__name__", "?")
            if name in _SKIP:
                return
            name = co.co_name + "<" + name
        else:
            b = frame.f_back
            if co.co_name in _SKIP or b is None or \
                    b.f_code.co_flags & CO_GEN or \
                    not boot.is_harold_file(b.f_code.co_filename) or \
                    co.co_filename.endswith(("/warnings.py",
                                             "/contextlib.py",
                                             "/sim/locks.py",
                                             "/threading.py")):
                return
            name = b.f_code.co_name + "<" + co.co_name
        self._hit(name)

    def __call__(self, frame, event, arg):
        if self.kind == "break":
            if event in ("c_return", "return"):
                self._returned(frame, event, arg)
            return
        if event == "c_call":
            if self.kind == "kernel":
                return
            co = frame.f_code
            if co.co_flags & CO_GEN or not boot.is_harold_file(co.co_filename):
                return
            name = getattr(arg, "__name__", "?")
            if name in _SKIP:
                return
            name = co.co_name + ">" + name
        elif event == "call":
            co = frame.f_code
            if co.co_flags & CO_GEN or co.co_name in _SKIP:
                return
            if self.kind == "kernel":
                if co.co_name not in KERNELS:
                    return
                fn = co.co_filename
                if "/linalg/" not in fn:
                    return
                b = frame.f_back
                if b is None or "/linalg/" in b.f_code.co_filename and \
                        b.f_code.co_name in KERNELS:
                    return
                name = "kernel:" + co.co_name
            else:
                if not boot.is_harold_file(co.co_filename):
                    b = frame.f_back
                    if b is None or b.f_code.co_flags & CO_GEN or \
                            not boot.is_harold_file(b.f_code.co_filename):
                        return
                    if co.co_filename.endswith(("/warnings.py",
                                                "/contextlib.py",
                                                "/sim/locks.py",
                                                "/threading.py")):
                        return
                    name = b.f_code.co_name + ">" + co.co_name
                else:
                    name = "in:" + co.co_name
        else:
            return
        self._hit(name)


def pick(record, frac):
    """A fault point by place in the code, then by occurrence.

    Picking uniformly among all points would mean failing in the innermost
    loops nearly always.
    """
    if not record:
        return None
    sites = sorted(set(record))
    x = frac * len(sites)
    site = sites[min(int(x), len(sites) - 1)]
    occ = [i for i, s in enumerate(record) if s == site]
    return 1 + occ[min(int((x - int(x)) * len(occ)), len(occ) - 1)]


def sample(r, record, n):
    """At most n fault points, different places first."""
    if len(record) <= n:
        return list(range(1, len(record) + 1))
    occ = {}
    for i, s in enumerate(record):
        occ.setdefault(s, []).append(i + 1)
    for v in occ.values():
        r.shuffle(v)
    sites = sorted(occ)
    out = []
    while len(out) < n:
        r.shuffle(sites)
        for s in sites:
            if occ[s] and len(out) < n:
                out.append(occ[s].pop())
    return sorted(out)


def hottest(r, ij, n):
    """At most n of the fault points at which something was different from
    what it was at the start, different places and differences first."""
    pts = sorted(ij.hot)
    if len(pts) <= n:
        return pts
    kinds = {}
    at = sample(r, [(ij.record[k - 1], kinds.setdefault(ij.hot[k], len(kinds)))
                    for k in pts], n)
    return [pts[k - 1] for k in at]


def run(fn, kind=None, target=None, record=False, watch=None):
    """Run fn() under the injector -> (ok, value or exception, injector)."""
    inj = Injector(kind or "memory", target, record)
    if watch:
        inj.watch, inj.first = watch, watch()
    try:
        if inj.kind == "break":
            sys.settrace(inj.trace)
        sys.setprofile(inj)
        try:
            v = fn()
        finally:
            sys.setprofile(None)
            if inj.kind == "break":
                sys.settrace(None)
        return True, v, inj
    except (Exception, KeyboardInterrupt) as e:
        e.__traceback__ = None
        e.__context__ = None
        return False, e, inj
