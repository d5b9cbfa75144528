"""A scheduler for threads: one runs at a time, switches happen where the
schedule says.

A schedule is a list of [steps, pick]: after that many steps the running
thread is preempted and the pick-th of the other runnable threads continues.
A step is a line (or an instruction) of the package under test, or an
operation of the simulated environment.  When the schedule is used up, each
thread runs to its end in turn.
"""
import _thread
import sys

from . import boot, simlock

real_lock = _thread.allocate_lock
WATCHDOG = 20           # seconds without the end of a step: a real deadlock


class Stuck(Exception):
    """Threads blocked outside of the scheduler's control."""


class Deadlock(BaseException):
    pass


class Abort(BaseException):
    """Raised out of nowhere inside the code under test."""


class Scheduler:

    def __init__(self, jobs, schedule, opcodes=False):
        self.jobs = jobs
        self.schedule = list(schedule)
        self.opcodes = opcodes
        n = len(jobs)
        self.batons = [real_lock() for _ in range(n)]
        for b in self.batons:
            b.acquire()
        self.state = ["ready"] * n        # ready, blocked, done
        self.waiting = [None] * n
        self.results = [None] * n
        self.idents = {}
        self.done = real_lock()
        self.done.acquire()
        self.running = None
        self.steps = 0
        self.at = 0                       # steps since the last switch
        self.switches = []                # (from, where, to)
        self.deadlocked = False
        self.next = self.schedule.pop(0) if self.schedule else None

    # the interface for locks and simulated operations

    def is_sim_thread(self, ident):
        return ident in self.idents

    def point(self, kind):
        if _thread.get_ident() in self.idents:
            self.step(kind)

    def block(self, lock):
        me = self.idents[_thread.get_ident()]
        self.state[me] = "blocked"
        self.waiting[me] = lock
        self.leave(me, "lock")
        if self.deadlocked:
            raise Deadlock()

    def unblock(self, lock):
        for i, w in enumerate(self.waiting):
            if w is lock:
                self.waiting[i] = None
                self.state[i] = "ready"

    # running

    def run(self):
        simlock.current = self
        try:
            for i in range(len(self.jobs)):
                _thread.start_new_thread(self.thread, (i,))
            self.running = 0
            self.batons[0].release()
            last = -1
            while not self.done.acquire(True, WATCHDOG):
                if self.steps == last:
                    raise Stuck()
                last = self.steps
        finally:
            simlock.current = None
        return self.results

    def thread(self, i):
        self.batons[i].acquire()
        self.idents[_thread.get_ident()] = i
        sys.settrace(self.trace)
        try:
            self.results[i] = self.jobs[i]()
        except BaseException as e:
            self.results[i] = e
        finally:
            sys.settrace(None)
            del self.idents[_thread.get_ident()]
            self.state[i] = "done"
            self.waiting[i] = None
            self.leave(i, "end")

    def trace(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(boot.PKG):
            return None
        if self.opcodes:
            frame.f_trace_opcodes = True
        return self.local

    def local(self, frame, event, arg):
        if event == "line" or event == "opcode":
            self.step(frame)
        return self.local

    def step(self, where):
        self.steps += 1
        self.at += 1
        if self.next is None or self.at < self.next[0]:
            return
        me = self.running
        others = [j for j, s in enumerate(self.state) if s == "ready" and j != me]
        pick = self.next[1]
        self.next = self.schedule.pop(0) if self.schedule else None
        self.at = 0
        if not others:
            return
        to = others[pick % len(others)]
        self.switch(me, where, to)

    def switch(self, me, where, to):
        if not isinstance(where, str):
            where = "%s:%d" % (where.f_code.co_filename[len(boot.PKG):],
                               where.f_lineno or 0)
        self.switches.append((me, where, to))
        self.running = to
        self.batons[to].release()
        if self.state[me] != "done":
            self.batons[me].acquire()

    def leave(self, me, why):
        """The running thread cannot go on: let another one."""
        ready = [j for j, s in enumerate(self.state) if s == "ready"]
        if ready:
            # the next one in turn
            to = min(ready, key=lambda j: (j <= me, j))
            self.at = 0
            self.switch(me, why, to)
            return
        blocked = [j for j, s in enumerate(self.state) if s == "blocked"]
        if not blocked:
            self.done.release()
            return
        self.deadlocked = True
        for j in blocked:
            self.state[j] = "ready"
            self.waiting[j] = None
        if me in blocked:
            return            # raises Deadlock in block()
        self.switch(me, "deadlock", blocked[0])


def with_abort(fn, k, opcodes=False):
    """Call fn, raising Abort inside the package at its k-th step.

    Returns (aborted, result or exception)."""
    left = [k]

    def local(frame, event, arg):
        if event == "line" or event == "opcode":
            left[0] -= 1
            if left[0] == 0:
                sys.settrace(None)
                raise Abort()
        return local

    def trace(frame, event, arg):
        if left[0] <= 0 or not frame.f_code.co_filename.startswith(boot.PKG):
            return None
        if opcodes:
            frame.f_trace_opcodes = True
        return local

    sys.settrace(trace)
    try:
        result = fn()
    except BaseException as e:
        result = e
    finally:
        sys.settrace(None)
    return left[0] <= 0, result
