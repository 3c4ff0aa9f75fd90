"""
Cooperative locks.  Locks created by the code under test (and by anything created after
boot) yield to the simulator's scheduler instead of blocking the one runnable thread.
"""
import _thread
import functools
import threading

_real_lock = _thread.allocate_lock
_hook = None  # set by sim.Sim while a simulation runs: object with block_on(lock, timeout)->bool, wake(lock)


_patience = {}  # thread -> seconds after which a caller that waits alone is deadlocked


def call_in_thread(fn, patience=20.0):
    """fn() in a thread of its own, while the calling thread waits; a deadlock raises here."""
    box = []

    def run():
        me = _thread.get_ident()
        _patience[me] = patience
        try:
            box.append((True, fn()))
        except BaseException as e:
            box.append((False, e))
        finally:
            del _patience[me]

    t = threading.Thread(target=run)
    t.start()
    t.join()
    ok, v = box[0]
    if not ok:
        raise v
    return v


def set_hook(h):
    global _hook
    _hook = h


class SimLock:
    def __init__(self):
        self._l = _real_lock()

    def acquire(self, blocking=True, timeout=-1):
        h = _hook
        if h is None or not h.in_sim_thread():
            p = _patience.get(_thread.get_ident())
            if p and blocking and timeout < 0:
                if not self._l.acquire(True, p):
                    from .sim import SimDeadlock

                    raise SimDeadlock("waits for a lock that nobody will release")
                return True
            return self._l.acquire(blocking, timeout)
        while not self._l.acquire(False):
            if not blocking:
                return False
            if not h.block_on(self, timeout):
                return False
        return True

    def release(self):
        self._l.release()
        h = _hook
        if h is not None:
            h.wake(self)

    def locked(self):
        return self._l.locked()

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()

    def _at_fork_reinit(self):
        self._l = _real_lock()


class SimRLock:
    def __init__(self):
        self._b = SimLock()
        self._owner = None
        self._count = 0

    def acquire(self, blocking=True, timeout=-1):
        me = _thread.get_ident()
        if self._owner == me:
            self._count += 1
            return True
        r = self._b.acquire(blocking, timeout)
        if r:
            self._owner = me
            self._count = 1
        return r

    __enter__ = acquire

    def release(self):
        if self._owner != _thread.get_ident():
            raise RuntimeError("cannot release un-acquired lock")
        self._count -= 1
        if not self._count:
            self._owner = None
            self._b.release()

    def __exit__(self, *a):
        self.release()

    def _at_fork_reinit(self):
        self._b._at_fork_reinit()
        self._owner = None
        self._count = 0

    def _is_owned(self):
        return self._owner == _thread.get_ident()

    def _release_save(self):
        st = (self._count, self._owner)
        self._count = 0
        self._owner = None
        self._b.release()
        return st

    def _acquire_restore(self, st):
        self._b.acquire()
        self._count, self._owner = st


def install():
    threading.Lock = SimLock
    threading._allocate_lock = SimLock
    threading.RLock = SimRLock
    threading._RLock = SimRLock
    functools.RLock = SimRLock
