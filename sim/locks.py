"""Lock seam: locks that harold creates are cooperative simulator locks.

A simulated thread that is parked by the scheduler while it holds an operating
system lock would block the whole simulation.  Lock objects created from harold
code are therefore instances of SimLock, which asks the scheduler to run
somebody else while the lock is taken.
"""
import sys
import threading
import weakref
import _thread

real_Lock = threading.Lock
real_RLock = threading.RLock
real_Semaphore = threading.Semaphore

is_harold_file = None
# set by the scheduler while a simulation is running
scheduler = None
created = [0]
_all = weakref.WeakSet()


def _from_harold():
    f = sys._getframe(2)
    for _ in range(6):
        if f is None:
            return False
        fn = f.f_code.co_filename
        if is_harold_file is not None:
            if is_harold_file(fn):
                return True
        elif "harold" in fn and "/tests/" not in fn:
            return True
        f = f.f_back
    return False


class SimLock:
    def __init__(self, reentrant):
        self._re = reentrant
        self._owner = None
        self._count = 0
        created[0] += 1
        _all.add(self)

    def acquire(self, blocking=True, timeout=-1):
        me = _thread.get_ident()
        while self._count and not (self._re and self._owner == me):
            if not blocking:
                return False
            if timeout is not None and timeout >= 0:
                # a timed wait may always time out in simulated time
                return False
            s = scheduler
            if s is None or not s.owns_current():
                raise RuntimeError("lock taken by a finished owner: deadlock")
            s.block_on(self)
        self._owner = me
        self._count += 1
        return True

    def release(self):
        if not self._count:
            raise RuntimeError("release unlocked lock")
        if self._re and self._owner != _thread.get_ident():
            raise RuntimeError("cannot release un-acquired lock")
        self._count -= 1
        if not self._count:
            self._owner = None
            if scheduler is not None:
                scheduler.wake(self)

    def locked(self):
        return bool(self._count)

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()

    def _is_owned(self):
        return self._owner == _thread.get_ident()

    # state is per process; copies and pickles are new locks
    def __reduce__(self):
        raise TypeError("cannot pickle lock")


def held():
    """Number of locks that somebody holds."""
    return sum(1 for x in list(_all) if x._count)


def _mk_lock(*a, **k):
    return SimLock(False) if _from_harold() else real_Lock(*a, **k)


def _mk_rlock(*a, **k):
    return SimLock(True) if _from_harold() else real_RLock(*a, **k)


def install():
    threading.Lock = _mk_lock
    threading.RLock = _mk_rlock
