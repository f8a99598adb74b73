"""Deterministic scheduler: real threads, one released at a time.

Every line of harold code (optionally every bytecode) executed by a simulated
thread is a step.  At each step the plan decides whether another thread takes
over.  The switches taken are recorded, so that the same run can be described
by a plain list of switches.
"""
import random
import sys
import _thread

from . import boot, faults, locks


def _pick(path, mode, f, g):
    """A step of a lone run: any, by line of code, or where shared state is
    different from what it was."""
    path, hot, own, rare = path
    if not path:
        return 1
    if mode == "hot" and hot:
        idx = hot
    elif mode == "own" and own:
        idx = own
    elif mode == "rare" and rare:
        idx = rare
    elif mode == "any":
        return max(1, int(f * len(path)))
    else:
        idx = range(len(path))
    line = sorted({path[i] for i in idx})
    line = line[min(int(f * len(line)), len(line) - 1)]
    occ = [i for i in idx if path[i] == line]
    return 1 + occ[min(int(g * len(occ)), len(occ) - 1)]


class Plan:
    """Decides switches.  next(me, step, mine, ready) -> thread or None."""

    def __init__(self, p, n, paths):
        self.p = p
        lengths = [len(x[0]) for x in paths]
        k = p["s"]
        self.r = random.Random(p.get("seed", 0))
        total = max(1, sum(lengths))
        self.forced = list(p.get("forced", ()))
        self.start = p.get("start", 0) % n
        if k == "rand":
            # mean distance between switches from 1 step to a whole call
            self.rate = min(1., p["per_run"] / total)
        elif k == "prio":
            self.prio = list(range(n))
            self.r.shuffle(self.prio)
            self.low = -1
            self.at = {self.r.randint(1, total) for _ in range(p["d"])}
            self.start = max(range(n), key=lambda i: self.prio[i])
        elif k == "park":
            # run a for a steps, b for b steps, ... the rest to completion
            self.seq = [[i % n, _pick(paths[i % n], *f)]
                        for i, *f in p["seq"]]
            self.start = self.seq[0][0]
            self.pos = 0
            self.used = 0
        elif k == "list":
            self.sw = {s: t for s, t in p["sw"]}

    def next(self, me, step, ready):
        k = self.p["s"]
        if k == "rand":
            if self.r.random() >= self.rate:
                return None
            c = [t for t in ready if t != me]
            return self.r.choice(c) if c else None
        if k == "prio":
            if step in self.at:
                self.prio[me] = self.low
                self.low -= 1
            b = max(ready, key=lambda i: self.prio[i])
            return b if b != me else None
        if k == "park":
            if self.pos >= len(self.seq) or self.seq[self.pos][0] != me:
                return None
            self.used += 1
            if self.used < self.seq[self.pos][1]:
                return None
            self.pos += 1
            self.used = 0
            if self.pos < len(self.seq):
                t = self.seq[self.pos][0]
                return t if t in ready and t != me else None
            c = [t for t in ready if t != me]
            return c[0] if c else None
        t = self.sw.get(step)
        return t if t in ready and t != me else None

    def force(self, me, ready):
        """me cannot go on: who runs?"""
        k = self.p["s"]
        if k == "list":
            t = self.forced.pop(0) if self.forced else None
            if t in ready:
                return t
        elif k == "rand":
            return self.r.choice(ready)
        elif k == "prio":
            return max(ready, key=lambda i: self.prio[i])
        for t in ready:
            if t > me:
                return t
        return ready[0]


class Scheduler:
    def __init__(self, bodies, plan, opcodes, paths):
        self.bodies = bodies
        n = self.n = len(bodies)
        self.plan = Plan(plan, n, paths)
        self.opcodes = opcodes
        self.sem = []
        for _ in range(n):
            s = locks.real_Lock()
            s.acquire()
            self.sem.append(s)
        self.done_sem = locks.real_Lock()
        self.done_sem.acquire()
        self.ids = {}
        self.done = [False] * n
        self.blocked = {}
        self.step = 0
        self.mine = [0] * n
        self.switches = []
        self.forced = []
        self.where = []
        self.deadlock = None
        self.inj = {}       # thread -> injector of interrupts at loop ends
        self.results = [None] * n

    # ---- interface for SimLock
    def owns_current(self):
        return _thread.get_ident() in self.ids

    def block_on(self, lock):
        me = self.ids[_thread.get_ident()]
        self.blocked[me] = lock
        self._leave(me)

    def wake(self, lock):
        for t in [t for t, l in self.blocked.items() if l is lock]:
            del self.blocked[t]

    # ---- switching
    def ready(self):
        return [t for t in range(self.n)
                if not self.done[t] and t not in self.blocked]

    def _hand(self, me, to):
        self.sem[to].release()
        if me is not None:
            self.sem[me].acquire()

    def _leave(self, me):
        """me is blocked or finished."""
        r = self.ready()
        if not r:
            if not all(self.done):
                self.deadlock = sorted(self.blocked)
            self.done_sem.release()
            if not self.done[me]:
                self.sem[me].acquire()      # parked for good
            return
        to = self.plan.force(me, r)
        self.forced.append(to)
        if self.done[me]:
            self._hand(None, to)
        else:
            self._hand(me, to)

    def _trace(self, frame, event, arg):
        if event != "call":
            return None
        if not boot.is_harold_file(frame.f_code.co_filename):
            return None
        if self.opcodes:
            frame.f_trace_opcodes = True
        self._at(frame)
        ij = self.inj.get(self.ids.get(_thread.get_ident()))
        return self._loops(ij, frame.f_code) if ij else self._local

    def _loops(self, ij, code):
        back = faults.Loops(code)

        def local(frame, event, arg):
            if event == "line" or event == "opcode":
                if event == "line" and back(frame.f_lineno):
                    ij._hit(code.co_name + " loop")
                self._at(frame)
            return local
        return local

    def _local(self, frame, event, arg):
        if event == "line" or event == "opcode":
            self._at(frame)
        return self._local

    def _at(self, frame):
        me = self.ids.get(_thread.get_ident())
        if me is None:
            return
        self.step += 1
        self.mine[me] += 1
        r = self.ready()
        if len(r) < 2 and r == [me]:
            return
        to = self.plan.next(me, self.step, r)
        if to is not None:
            self.switches.append([self.step, to])
            self.where.append((me, frame.f_code.co_name, frame.f_lineno, to))
            self._hand(me, to)

    def retrace(self):
        """Raising from a trace function has switched tracing off."""
        sys.settrace(self._trace)

    def _body(self, i):
        self.sem[i].acquire()
        self.ids[_thread.get_ident()] = i
        sys.settrace(self._trace)
        try:
            self.results[i] = self.bodies[i]()
        except BaseException as e:          # noqa - harness problem
            self.results[i] = ("harness", repr(e))
        finally:
            sys.settrace(None)
            self.done[i] = True
            self._leave(i)

    def run(self):
        locks.scheduler = self
        try:
            for i in range(self.n):
                _thread.start_new_thread(self._body, (i,))
            self.sem[self.plan.start].release()
            self.done_sem.acquire()
        finally:
            locks.scheduler = None
        for r in self.results:
            if isinstance(r, tuple) and r and r[0] == "harness":
                raise RuntimeError("simulated thread: " + r[1])
        return self.results

    def taken(self):
        """The schedule of this run as a replayable plan."""
        return {"s": "list", "start": self.plan.start, "sw": self.switches,
                "forced": self.forced}


def walk(fn, opcodes=False, ids=None, fp=None, backs=None):
    """fn() alone in this thread -> (value, (path, hot, own, rare)).

    The path is the list of lines visited, as small integers numbered in the
    order in which they were first seen; hot are the indices of the steps at
    which the fingerprint fp() is not what it was at the start, own those of
    them where the library's own data or the objects differ, rare those where
    a setting other than the warning filters does.  The names of the
    functions in which a loop begins another round go to backs.
    """
    path, hot, own, rare, seen = [], [], [], [], {}
    ids = {} if ids is None else ids
    first = fp() if fp else None

    def at(frame):
        k = (frame.f_code.co_filename, frame.f_code.co_firstlineno,
             frame.f_lineno)
        if fp:
            n = seen[k] = seen.get(k, 0) + 1
            if n < 4 or n % 16 == 0:
                now = fp()
                if now != first:
                    hot.append(len(path))
                    if now[1] != first[1]:
                        own.append(len(path))
                    if now[2] != first[2]:
                        rare.append(len(path))
        path.append(ids.setdefault(k, len(ids)))

    def make(code):
        back = faults.Loops(code)

        def local(frame, event, arg):
            if event == "line" or event == "opcode":
                if event == "line" and back(frame.f_lineno):
                    backs.append(code.co_name)
                at(frame)
            return local
        return local
    backs = [] if backs is None else backs

    def tr(frame, event, arg):
        if event == "call" and boot.is_harold_file(frame.f_code.co_filename):
            if opcodes:
                frame.f_trace_opcodes = True
            at(frame)
            return make(frame.f_code)
        return None
    sys.settrace(tr)
    try:
        v = fn()
    finally:
        sys.settrace(None)
    return v, (path, hot, own, rare)


def join(parts):
    """Paths of consecutive calls in one thread."""
    path, hot, own, rare = [], [], [], []
    for j, (p, h, o, s) in enumerate(parts):
        hot += [len(path) + i for i in h]
        own += [len(path) + i for i in o]
        rare += [len(path) + i for i in s]
        path += [(j, x) for x in p]
    return path, hot, own, rare


def gen_plan(r, n, mode=None):
    x = r.random()
    if mode:
        x = 1.
    if x < .22:
        return {"s": "rand", "seed": r.getrandbits(30),
                "start": r.randrange(n),
                "per_run": r.choice([2, 5, 15, 60, 400])}
    if x < .35:
        return {"s": "prio", "seed": r.getrandbits(30),
                "d": r.choice([1, 2, 3, 6])}
    k = r.choice([1, 2, 2, 3])
    first = r.randrange(n)
    mode = mode or r.choice(["hot", "hot", "line", "any"])
    seq = []
    for j in range(k):
        seq.append([(first + j) % n, mode, round(r.random(), 4),
                    round(r.random(), 4)])
    return {"s": "park", "seq": seq}


def shrink_plan(p):
    """Smaller plans; only for explicit lists."""
    if p["s"] != "list":
        return
    sw = p["sw"]
    k = len(sw)
    while k >= 1:
        for i in range(0, len(sw), k):
            yield dict(p, sw=sw[:i] + sw[i + k:])
        k //= 2
