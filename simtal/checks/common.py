"""Shared by the checks that compare a rendering with the reference model."""
import re

from .. import run
from ..core import Check, digest
from ..model import Compiled, Model

REAL = ["zope.tal htmlparser/htmltalparser/xmlparser/talparser, talgenerator, "
        "talinterpreter, translationcontext",
        "zope.tal.dummyengine in about a third of the runs (scopes, iterator, "
        "error info, evaluateBoolean/Text)",
        "html.parser, expat, zope.i18nmessageid"]
STUBS = ["expression engine: answers and failures come from the case (in the "
         "other two thirds of the runs it is a stub throughout, written "
         "against the published interface)",
         "translation service", "output stream (in-memory)"]


def modes(compiled):
    return {f: t["mode"] for f, t in compiled.tpl.items()}


def untagged(s):
    return re.sub("<[^>]*>", "", s)


def log_key(log):
    return [(r[0], str(r[1]), r[2]) for r in log]


def plain(x):
    """Logged extras in a comparable form."""
    if isinstance(x, (list, tuple)):
        return [plain(y) for y in x]
    return str(x)


def common_calls(a, b):
    """Pairs of log records that both renderings made."""
    index = {(r[0], str(r[1]), r[2]): r for r in b}
    for r in a:
        other = index.get((r[0], str(r[1]), r[2]))
        if other is not None:
            yield r, other


def show_diff(a, b):
    i = next((i for i in range(min(len(a), len(b))) if a[i] != b[i]),
             min(len(a), len(b)))
    return "after %r: got %r, expected %r" % (
        a[max(0, i - 30):i], a[i:i + 60], b[i:i + 60])


def first_log_diff(a, b):
    for i, (x, y) in enumerate(zip(a, b)):
        if x != y:
            return "call %d: got %r, expected %r" % (i, x, y)
    return "got %d calls, expected %d; next: %r" % (
        len(a), len(b), (a + b)[min(len(a), len(b))])


def refused(e, v):
    """The generated templates are valid: nothing they promise was rendered."""
    v.nontrivial = True
    v.sig = "compile"
    v.fail("compile", "a valid template was refused: %s: %s"
           % (type(e).__name__, run.show(e)))


class ModelCheck(Check):
    """Render one case with the real code and with the model."""

    real = REAL
    stubs = STUBS
    states_are = ("distinct (call kind, open scopes, macro uses in progress, open "
                  "translation units, enclosing on-errors, buffers) at an engine "
                  "call, combined with whether a failure was injected there")
    technique = "deterministic simulation with fault injection: seeded templates, " \
        "engine answers and engine/translation failures, compared with an " \
        "independent reference model"

    def texts(self, case, compiled):
        return "\n".join("--- %s\n%s" % (f, s) for f, s in compiled.text.items())

    def prepare(self, case):
        return Compiled(case["templates"])

    def judge(self, case, v):
        c = self.prepare(case)
        render = case["render"]
        if case.get("external"):
            render = dict(render, texts=c.text)
        m = Model(c, render, named=case["named"]).run(case["main"])
        try:
            programs = run.compile_all(c.text, modes(c), render["engine"],
                                       case["named"])
        except Exception as e:
            return refused(e, v)
        r = run.render(programs, case["main"], m.mode, render)
        self.measure(m, v)
        if r.outcome == ["runaway"]:
            v.fail("runaway", "rendering asked for more than 20000 engine calls")
            return
        self.compare(case, r, m, v)
        v.sig = digest(log_key(r.log), r.outcome, r.out)

    def measure(self, m, v):
        v.ticks = len(m.log)
        v.counts.update(m.stats)
        v.counts["contained failures"] += len(m.contained)
        v.counts["engine calls"] += len(m.log)
        v.counts["runs ending in a failure"] += m.outcome[0] != "ok"
        fired = set(m.fired)
        for at in m.fired:
            v.faults["%s fails with %s" % (at[0], m.faults[at])] += 1
        for rec, meta in zip(m.log, m.meta):
            v.states.add("%s%s%s" % (rec[0], meta, "!" if (rec[0], rec[1], rec[2])
                                     in fired else ""))

    def compare(self, case, r, m, v):
        raise NotImplementedError

    # channels

    def cmp_outcome(self, r, m, v):
        if r.outcome != m.outcome:
            v.fail("outcome", "rendering ended with %s (%s), expected %s"
                   % (r.outcome, getattr(r, "detail", ""), m.outcome))
            return False
        return True

    def cmp_output(self, r, m, v):
        if not self.cmp_outcome(r, m, v):
            return False
        got, want = r.out, m.out
        if not m.tal:
            # without TAL the tags show their directives
            got, want = untagged(got), untagged(want)
        if m.outcome == ["ok"]:
            if got != want:
                v.fail("output", show_diff(got, want))
                return False
        elif not want.startswith(got):
            v.fail("output before failure", show_diff(got, want))
            return False
        return True

    def cmp_sequence(self, r, m, v, kinds, extra=False, what="sequence"):
        def sel(log):
            return [[x[0], str(x[1]), x[2]] + ([plain(x[3])] if extra else [])
                    for x in log if x[0] in kinds]
        a, b = sel(r.log), sel(m.log)
        if a != b:
            v.fail(what, first_log_diff(a, b))
            return False
        return True
