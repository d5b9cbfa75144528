"""Locks that a simulated scheduler can see.

Installed over threading.Lock and threading.RLock before zope.tal is imported,
so that a version of the package that protects shared state with locks runs
under the scheduler: a thread that would block yields to another one instead.
Outside of a simulation they behave like the real ones.
"""
import _thread
import threading

real_Lock = threading.Lock
real_RLock = threading.RLock
get_ident = _thread.get_ident

current = None      # the active scheduler, or None


def sim_thread():
    return current is not None and current.is_sim_thread(get_ident())


class SimLock:
    reentrant = False

    def __init__(self):
        self._real = real_RLock() if self.reentrant else real_Lock()
        self._owner = None
        self._count = 0

    def acquire(self, blocking=True, timeout=-1):
        if not sim_thread():
            return self._real.acquire(blocking, timeout)
        me = get_ident()
        sched = current
        sched.point("lock")
        while self._owner is not None and not (self.reentrant
                                               and self._owner == me):
            if not blocking or timeout >= 0:
                # simulated time: an attempt with a timeout gives up at once
                return False
            sched.block(self)
        self._owner = me
        self._count += 1
        return True

    def release(self):
        if not sim_thread():
            return self._real.release()
        if self._owner != get_ident() and (self.reentrant or self._owner is None):
            raise RuntimeError("release of an unacquired lock")
        self._count -= 1
        if self._count == 0:
            self._owner = None
            current.unblock(self)
        current.point("unlock")

    __enter__ = acquire

    def __exit__(self, *exc):
        self.release()

    def locked(self):
        return self._owner is not None or (
            not self.reentrant and self._real.locked())

    # used by threading.Condition
    def _is_owned(self):
        if sim_thread():
            return self._owner == get_ident()
        if self.reentrant:
            return self._real._is_owned()
        if self._real.acquire(False):
            self._real.release()
            return False
        return True

    def _at_fork_reinit(self):
        self._real = real_RLock() if self.reentrant else real_Lock()
        self._owner = None
        self._count = 0


class SimRLock(SimLock):
    reentrant = True


def Lock():
    return SimLock()


def RLock():
    return SimRLock()


def install():
    threading.Lock = Lock
    threading.RLock = RLock


# modules whose locks are not part of the package under test must have been
# imported with the real ones
import concurrent.futures  # noqa: E402,F401
import logging  # noqa: E402,F401
import multiprocessing.pool  # noqa: E402,F401
import queue  # noqa: E402,F401
import urllib.request  # noqa: E402,F401
install()
