"""Simulated inputs: streams, files and URLs that misbehave on schedule."""
import io
import os


class Stream:
    """A binary stream delivering *data* in the given portions.

    sizes: portion sizes, used in turn (the last one repeats); fail_at: number
    of bytes after which a read fails with exc; None means never.
    """

    def __init__(self, data, sizes, fail_at=None, exc=None):
        self.data, self.sizes = data, list(sizes) or [1 << 20]
        self.fail_at, self.exc = fail_at, exc
        self.pos = 0
        self.reads = 0
        self.failed = False
        self.closed = False
        self.eof = False

    def read(self, n=-1):
        if self.closed:
            raise ValueError("I/O operation on closed file.")
        self.reads += 1
        size = self.sizes[min(self.reads - 1, len(self.sizes) - 1)]
        if n is None or n < 0:
            size = len(self.data) - self.pos     # everything, by contract
        else:
            size = max(1, min(size, n)) if n else 0
        if self.fail_at is not None and (self.pos + size > self.fail_at
                                         or self.pos >= len(self.data)):
            self.failed = True
            raise self.exc
        s = self.data[self.pos:self.pos + size]
        self.pos += len(s)
        if not s and n:
            self.eof = True
        return s

    def readinto(self, b):
        s = self.read(len(b))
        b[:len(s)] = s
        return len(s)

    def readable(self):
        return True

    def close(self):
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        self.close()

    def __iter__(self):
        rest = io.BytesIO(self.read())
        return iter(rest)


class Raw(io.RawIOBase):
    """The raw file below a simulated open file."""

    def __init__(self, fs, plan, data):
        self.fs, self.plan, self.data = fs, plan, data
        self.pos = 0
        self.reads = 0

    def readable(self):
        return True

    def readinto(self, b):
        self.fs.ticks += 1
        self.reads += 1
        if self.plan.get("read") == self.reads:
            exc = self.fs.fail("read", self.plan["exc"])
            raise exc
        sizes = self.plan.get("sizes") or [1 << 20]
        n = min(len(b), sizes[min(self.reads - 1, len(sizes) - 1)])
        s = self.data[self.pos:self.pos + n]
        b[:len(s)] = s
        self.pos += len(s)
        return len(s)

    def readall(self):
        out = []
        while True:
            b = bytearray(1 << 16)
            n = self.readinto(b)
            if not n:
                return b"".join(out)
            out.append(bytes(b[:n]))


class FS:
    """Files and URLs held in memory.

    files: {name: bytes}; plans: {name: [plan, ...]}, one per opening, a plan
    being {} or {"open": 1, "exc": kind} or {"read": n, "exc": kind}, with
    "sizes" to divide what is read.
    """

    def __init__(self, files, plans=None, make=None):
        self.files = files
        self.plans = plans or {}
        self.make = make
        self.opened = {}
        self.handles = []         # every handle handed out, kept alive
        self.raised = []
        self.ticks = 0

    def fail(self, what, kind):
        exc = self.make(kind, what)
        self.raised.append((what, exc))
        return exc

    def find(self, name):
        """The name under which a file is known here, however it is spelled."""
        if name not in self.files:
            full = os.path.abspath(name)
            for known in self.files:
                if os.path.abspath(known) == full:
                    return known
        return name

    def stat(self, path):
        """None for a path outside of the simulation."""
        name = self.find(os.fsdecode(path))
        if name in self.files:
            return os.stat_result((0o100444, 1, 1, 1, 0, 0, len(self.files[name]),
                                   0, 0, 0))
        if name.startswith("/sim"):
            if any(known.startswith(name.rstrip("/") + "/") for known in self.files):
                return os.stat_result((0o040555, 1, 1, 1, 0, 0, 0, 0, 0, 0))
            raise FileNotFoundError(2, "No such file or directory", name)

    def _raw(self, name):
        self.ticks += 1
        n = self.opened.get(name, 0)
        self.opened[name] = n + 1
        plans = self.plans.get(name) or [{}]
        plan = plans[n] if n < len(plans) else {}
        if plan.get("open"):
            raise self.fail("open", plan["exc"])
        if name not in self.files:
            raise FileNotFoundError(2, "No such file or directory", name)
        return Raw(self, plan, self.files[name])

    def open(self, file, mode="r", buffering=-1, encoding=None, errors=None,
             newline=None, closefd=True, opener=None):
        if hasattr(file, "__fspath__"):
            file = file.__fspath__()
        if isinstance(file, bytes):
            file = file.decode()
        if isinstance(file, int) or set(mode) & set("wax+"):
            raise OSError("not in this simulation: %r %r" % (file, mode))
        raw = self._raw(self.find(file))
        f = io.BufferedReader(raw) if buffering != 0 else raw
        if "b" not in mode:
            f = io.TextIOWrapper(f, encoding or "utf-8", errors, newline)
        self.handles.append((file, f))
        return f

    def urlopen(self, url, *args, **kw):
        url = getattr(url, "full_url", url)
        f = io.BufferedReader(self._raw(url))
        self.handles.append((url, f))
        return f

    def left_open(self):
        return [name for name, f in self.handles if not f.closed]
