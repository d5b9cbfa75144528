"""Running each case in a process of its own, forked from a pristine one."""
import os
import pickle
import resource
import select
import signal
import sys
import time
import traceback

CPU_LIMIT = 20          # seconds of CPU for one case: far beyond any real one


class HarnessError(Exception):
    pass


class Hang(Exception):
    """The code under test did not come to an end."""


class Crash(Exception):
    """The code under test raised something nobody expected of it."""


OURS = os.path.dirname(os.path.abspath(__file__)) + os.sep
THEIRS = os.path.join(os.environ.get("SIMTAL_REPO", "/repo"), "src",
                      "zope", "tal") + os.sep


def theirs(e):
    """Did the code under test raise this, rather than the harness?"""
    if isinstance(e, (Crash, HarnessError, Hang)):
        return isinstance(e, Crash)
    last = None
    for frame, _ in traceback.walk_tb(e.__traceback__):
        name = frame.f_code.co_filename
        if name.startswith((OURS, THEIRS)):
            last = name
    return last is not None and last.startswith(THEIRS)


def in_child(fn, *args, cpu=CPU_LIMIT):
    """Call fn(*args) in a forked child; return its result.

    Returns ("hang",) if the child used up its CPU allowance.  Raises
    HarnessError if the harness itself failed, Crash if the code under test
    did where nothing was meant to.
    """
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            signal.signal(signal.SIGPROF, signal.SIG_DFL)
            signal.signal(signal.SIGTERM, signal.SIG_DFL)
            signal.setitimer(signal.ITIMER_PROF, cpu)
            try:
                out = ("ok", fn(*args))
            except BaseException as e:
                out = ("crash" if theirs(e) else "error", traceback.format_exc())
            signal.setitimer(signal.ITIMER_PROF, 0)
            data = pickle.dumps(out)
            with os.fdopen(w, "wb") as f:
                f.write(data)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    chunks = []
    while True:
        try:
            b = os.read(r, 1 << 16)
        except InterruptedError:
            continue
        if not b:
            break
        chunks.append(b)
    os.close(r)
    _, status = os.waitpid(pid, 0)
    if os.WIFSIGNALED(status) and os.WTERMSIG(status) in (signal.SIGPROF,
                                                          signal.SIGXCPU):
        return ("hang",)
    if not chunks:
        raise HarnessError("child ended with status %d" % status)
    kind, value = pickle.loads(b"".join(chunks))
    if kind == "crash":
        raise Crash(value)
    if kind == "error":
        raise HarnessError(value)
    return ("ok", value)


def result(fn, *args):
    """Like in_child, for use inside a case."""
    r = in_child(fn, *args)
    if r[0] == "hang":
        raise Hang()
    return r[1]


def workers(n, count, job, deadline, stop_after=1):
    """Run job(i) for i in range(count) on n worker processes.

    job runs in the worker, and is expected to fork for isolation.  Yields
    (i, result) as they come; stops handing out work at the deadline.
    """
    procs = []
    for k in range(n):
        r, w = os.pipe()
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                os.close(r)
                for _, r2 in procs:
                    os.close(r2)
                with os.fdopen(w, "wb") as f:
                    for i in range(k, count, n):
                        if time.monotonic() > deadline:
                            break
                        try:
                            res = ("ok", job(i))
                        except BaseException:
                            res = ("error", traceback.format_exc())
                        data = pickle.dumps((i, res))
                        f.write(len(data).to_bytes(4, "big") + data)
                        f.flush()
                code = 0
            except BrokenPipeError:
                code = 0
            finally:
                os._exit(code)
        os.close(w)
        procs.append((pid, r))
    bufs = {r: b"" for _, r in procs}
    open_ = set(bufs)
    try:
        while open_:
            ready, _, _ = select.select(sorted(open_), [], [])
            for r in ready:
                b = os.read(r, 1 << 16)
                if not b:
                    open_.discard(r)
                    continue
                buf = bufs[r] + b
                while len(buf) >= 4:
                    n4 = int.from_bytes(buf[:4], "big")
                    if len(buf) < 4 + n4:
                        break
                    yield pickle.loads(buf[4:4 + n4])
                    buf = buf[4 + n4:]
                bufs[r] = buf
    finally:
        for pid, r in procs:
            os.close(r)
        for pid, r in procs:
            try:
                os.kill(pid, signal.SIGTERM)
            except ProcessLookupError:
                pass
            os.waitpid(pid, 0)
