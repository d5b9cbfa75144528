"""C10: output streams that fail."""
import io
import sys

from .. import gen, procs, run
from ..core import digest
from ..model import Model
from ..values import BASE_EXC, EXC, make_exception
from .common import ModelCheck, log_key, modes, refused, show_diff


class Sim:
    """An output stream that fails after accepting *limit* characters.

    how: "refuse" accepts nothing of the failing write, "tear" accepts the
    part that fits.  returns: what a successful write returns.
    """

    def __init__(self, ctx, limit, how, exc, expected, falsy, returns="none"):
        self.ctx, self.limit, self.how = ctx, limit, how
        self.exc, self.expected, self.falsy = exc, expected, falsy
        self.returns = returns
        self.text = ""
        self.failed = False
        self.writes = 0
        self.problem = None

    def __bool__(self):
        return not self.falsy

    def __len__(self):
        return 0 if self.falsy else 1

    def write(self, s):
        self.writes += 1
        if self.failed:
            self.problem = self.problem or ["written later",
                                            "%r was written after the failure" % s]
            raise self.exc
        if not isinstance(s, str):
            self.problem = ["not text", repr(s)]
            return
        if self.limit is not None and len(self.text) + len(s) > self.limit:
            if self.how == "tear":
                self.text += s[:self.limit - len(self.text)]
            self.failed = True
            self.calls = len(self.ctx.log)
            self.check()
            raise self.exc
        self.text += s
        self.check()
        return {"none": None, "length": len(s), "zero": 0, "false": False,
                "bytes": len(s.encode("utf-8", "replace"))}[self.returns]

    def check(self):
        if not self.expected.startswith(self.text):
            self.problem = self.problem or [
                "not a prefix", show_diff(self.text, self.expected)]


class Bare:
    """Has a write method and nothing else."""

    __slots__ = ["write"]


class Rich(io.StringIO):
    """A stream of the io module; nothing but write is asked of it."""


def dressed(stream, kind):
    """What the renderer is given for *stream*."""
    if kind in ("bare", "rich"):
        it = Bare() if kind == "bare" else Rich()
        it.write = stream.write
        return it
    return stream


class Trap(io.StringIO):
    pass


class C10(ModelCheck):
    id = "C10"
    technique = "deterministic simulation with fault injection: output streams " \
        "failing at seeded points, torn writes, against a reference model"
    rule = ("a run counts if the stream really failed and on-error elements had "
            "been or were being rendered, or if it was a falsy stream; distinct by "
            "calls, accepted text and failure")
    states_are = ("distinct (number of writes accepted up to 20, how the write failed, "
                  "exception type, falsy or not, kind of stream)")

    def generate(self, rng):
        case = gen.make_case(rng, rng.choice(["general", "error", "i18n", "metal",
                                              "struct", "tal"]),
                             nfaults=rng.choice([0, 0, 1, 2]),
                             want=rng.choice(["contained", "contained", None]),
                             opts={"strictinsert": rng.choice([0, 1])})
        if case is None:
            return None
        from ..model import Compiled
        m = Model(Compiled(case["templates"]), case["render"],
                  named=case["named"]).run(case["main"])
        n = len(m.out)
        case["stream"] = {
            "limit": None if rng.random() < .15 else rng.randrange(n + 1),
            "how": rng.choice(["refuse", "tear"]),
            "exc": rng.choice(EXC + BASE_EXC + ["OSError"] * 8),
            "falsy": rng.random() < .2,
            "kind": rng.choice(["sim"] * 5 + ["bare", "rich", "stdout"]),
            "returns": rng.choice(["none", "none", "length", "zero", "false", "bytes"])}
        if rng.random() < .2:
            # the model says nothing about annotations: the complete output
            # comes from another process
            case["render"]["opts"]["sourceAnnotations"] = 1
            if case["stream"]["limit"] is not None:
                case["stream"]["limit"] = rng.randrange(2 * n + 200)
        return case

    def judge(self, case, v):
        c = self.prepare(case)
        render = case["render"]
        st = case["stream"]
        m = Model(c, render, named=case["named"]).run(case["main"])
        try:
            programs = run.compile_all(c.text, modes(c), render["engine"],
                                       case["named"])
        except Exception as e:
            return refused(e, v)
        if render["opts"].get("sourceAnnotations"):
            m.out = procs.result(lambda: run.render(
                programs, case["main"], m.mode, render).out)
        exc = make_exception(st["exc"], "stream")
        stream = Sim(None, st["limit"], st["how"], exc, m.out, st["falsy"],
                     st["returns"])
        out, err = sys.stdout, sys.stderr
        try:
            given = dressed(stream, st["kind"])
            if st["kind"] == "stdout":
                sys.stdout, given = given, False
            it, ctx, _ = run.start(programs, case["main"], m.mode, render, given)
            stream.ctx = ctx
            trap = Trap()
            sys.stderr = trap
            if given is not False:
                sys.stdout = trap
            r = run.finish(it, ctx, stream)
            stray = trap.getvalue()
        finally:
            sys.stdout, sys.stderr = out, err
        v.ticks = len(ctx.log) + stream.writes
        v.counts["writes"] += stream.writes
        v.counts["contained failures"] += len(m.contained)
        v.sig = digest(log_key(r.log), stream.text, r.outcome, st)
        v.states.add("%d %s %s %s" % (min(stream.writes, 20), st["how"]
                                      if stream.failed else "-",
                                      st["exc"] if stream.failed else "-",
                                      st["falsy"]) + " " + st["kind"])
        v.sample = {"stream": st, "accepted": len(stream.text),
                    "complete_output": len(m.out)}
        if r.outcome == ["runaway"]:
            return v.fail("runaway", "no end")
        if stray:
            return v.fail("elsewhere", "written to the process's output: %r" % stray)
        if stream.problem:
            return v.fail(*stream.problem)
        if stream.failed:
            v.faults["write %s with %s" % (
                "torn" if st["how"] == "tear" else "refused", st["exc"])] += 1
            v.counts["stream failures"] += 1
            v.nontrivial = m.contained or any(meta[3] for meta in m.meta) or \
                st["falsy"]
            if r.exc is not exc:
                return v.fail("swallowed", "the stream's failure %s reached the "
                              "caller as %s (%s)" % (st["exc"], r.outcome,
                                                     getattr(r, "detail", "")))
            if len(ctx.log) != stream.calls:
                return v.fail("evaluated later", "%s after the stream failed"
                              % ctx.log[stream.calls])
            return
        v.nontrivial = st["falsy"]
        if r.outcome == ["ok"] and m.outcome == ["ok"] and stream.text != m.out:
            return v.fail("incomplete", show_diff(stream.text, m.out))
        if r.outcome != m.outcome:
            v.counts["other outcome"] += 1      # decided by C01 and C12

    def reductions(self, case):
        import copy
        for k, simple in (("falsy", False), ("how", "refuse"), ("kind", "sim"),
                          ("returns", "none")):
            if case["stream"][k] != simple:
                c = copy.deepcopy(case)
                c["stream"][k] = simple
                yield c
        yield from ModelCheck.reductions(self, case)
