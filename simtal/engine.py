"""The simulated expression engines.

Both answer every question from the case's value table, fail where the fault
plan says so, and log what they were asked, with the source location that had
been announced.  SimEngine is written against the published interface alone;
BundledEngine runs zope.tal's own DummyEngine (scopes, iterator, error info)
underneath.
"""
from zope.i18nmessageid import Message
from zope.tal.dummyengine import DummyEngine
from zope.tal.taldefs import METALError, TAL_VERSION, TALExpressionError

from . import boot
from .simfs import FS
from .values import Thing, bundled_translation, make_exception, pick, translation


class Budget(BaseException):
    """The rendering asked for more than any correct one would."""


class CompilerError(Exception):
    pass


UNDEF = "?%s?"


class Context:
    """Everything one rendering is given: data, fault plan, log."""

    def __init__(self, render, programs, budget=20000):
        self.values = render["values"]
        self.faults = {tuple(f["at"]): f["exc"] for f in render.get("faults", ())}
        self.programs = programs          # {file: (program, macros)}
        self.log = []
        self.occ = {}
        self.raised = []                  # [(tag, exception)]
        self.shared = {}                  # objects used more than once
        self.fired = []
        self.budget = budget
        self.file = None
        self.pos = (None, None)
        self.depth = 0
        self.problems = []
        self.closed = False               # set once the output failed
        self.point = None                 # scheduler hook
        # macros come from files, as the bundled engine looks them up: their texts,
        # and the lookups that fail because of the file
        self.debug = render.get("opts", {}).get("debug")
        self.texts = render.get("texts")
        self.how = {tuple(f["at"]): f["how"] for f in render.get("faults", ())
                    if "how" in f}

    def call(self, kind, ident, extra=None):
        """Log one engine call; raise if the plan says so.  Returns the
        occurrence number."""
        if self.point is not None:
            self.point("engine")
        self.budget -= 1
        if self.budget < 0:
            raise Budget()
        key = (kind, ident)
        n = self.occ.get(key, 0)
        self.occ[key] = n + 1
        rec = [kind, ident, n, extra, self.file, self.pos[0], self.pos[1]]
        self.log.append(rec)
        at = (kind, ident, n)
        if at in self.faults:
            tag = "%s/%s/%d" % at
            kind = self.faults[at]
            if kind.endswith("*"):
                # the same object wherever it is raised
                if kind not in self.shared:
                    self.shared[kind] = tag, make_exception(kind[:-1], tag)
                tag, exc = self.shared[kind]
            else:
                exc = make_exception(kind, tag)
            self.raised.append((tag, exc))
            self.fired.append(at)
            raise exc
        return n, rec

    def tag_of(self, exc):
        for tag, e in self.raised:
            if e is exc:
                return tag
        if isinstance(exc, METALError):
            return "METAL"
        return "OTHER"

    def value(self, ident, n):
        return pick(self.values[str(ident)], n)


def parse(expr):
    """'k:12' -> ('k', None, 12); 'v:x:13' -> ('v', 'x', 13);
    'd:14:exists:x' -> ('d', 'exists:x', 14)."""
    expr = expr.strip()
    if expr.startswith("d:"):
        form, ident, rest = expr.split(":", 2)
        return form, rest, int(ident)
    parts = expr.split(":")
    if len(parts) == 2:
        return parts[0], None, int(parts[1])
    return parts[0], parts[1], int(parts[2])


def macro_id(expr):
    # 'm:12/name'
    return int(expr[2:].split("/", 1)[0])


class EngineBase:
    """What both engines share."""

    def sim_answer(self, expr, role):
        ctx = self.sim_ctx
        form, name, ident = parse(expr)
        n, rec = ctx.call("eval", ident, None)
        if form == "k":
            spec = ctx.value(ident, n)
            return self.sim_make(spec)
        if form == "v":
            found, v = self.sim_lookup(name)
            r = UNDEF % name if not found else v
            rec[3] = [name, r if isinstance(r, (str, int, type(None))) else "obj"]
            return r
        if form == "a":
            found, v = self.sim_lookup("attrs")
            r = UNDEF % "attrs"
            if found:
                v = v.get(name, 0)
                r = v if isinstance(v, str) else "none"
            rec[3] = ["attrs." + name, r]
            return r
        if form == "e":
            found, v = self.sim_lookup("error")
            r = UNDEF % "error"
            if found:
                r = self.sim_describe(v)
            rec[3] = ["error", r]
            return r
        if form == "d":
            r = DummyEngine.evaluate(self, "$%s$" % name)
            if name == "position:":
                rec[3] = ["position", r]
            return r
        raise AssertionError(expr)

    def sim_make(self, spec):
        kind = spec[0]
        if kind in ("s", "i", "x", "l"):
            return spec[1]
        if kind == "o":
            return Thing(spec[1])
        if kind == "h":
            from .tree import fragment_text
            return fragment_text(spec[1], self.sim_mode)
        if kind == "b":
            return bool(spec[1])
        if kind == "n":
            return None
        if kind == "d":
            return self.getDefault()
        if kind == "map":
            # one object for equal data
            key = repr(spec)
            return self.sim_ctx.shared.setdefault(key, dict(spec[1]))
        if kind == "m":
            d = spec[1]
            return Message(d["id"], domain=d.get("domain"),
                           default=d.get("default"), mapping=d.get("mapping"))
        raise AssertionError(spec)

    sim_mode = "html"

    def sim_macro(self, expr):
        ctx = self.sim_ctx
        ident = macro_id(expr)
        n, rec = ctx.call("eval", ident, None)
        spec = ctx.value(ident, n)
        rec[3] = ["macro"] + [str(s) for s in spec]
        if spec[0] == "d":
            return self.getDefault()
        if spec[0] == "mac":
            return ctx.programs[spec[1]][1][spec[2]]
        if spec[0] == "badmode":
            return ctx.programs["other"][1]["om"]
        if spec[0] == "badver":
            version, mode = ("version", TAL_VERSION), ("mode", self.sim_mode)
            text = ("rawtextOffset", ("unusable", 8))
            return [[("version", "0.9"), mode, text],
                    [("version", TAL_VERSION + ".1"), mode, text],
                    [("version", None), mode, text],
                    [mode, version, text],
                    [version, text, text],
                    [version, ("mode", "text"), text],
                    [text, text, text]][spec[1] if len(spec) > 1 else 0]
        raise AssertionError(spec)

    def sim_trans(self, msgid, domain, mapping, default):
        ctx = self.sim_ctx
        if isinstance(msgid, Message):
            what = ["message", str(msgid), msgid.domain,
                    sorted((k, str(v)) for k, v in (msgid.mapping or {}).items())]
            ctx.call("translate", str(msgid), what)
            return translation(str(msgid), msgid.domain, msgid.mapping)
        what = ["text", msgid, domain,
                sorted((k, str(v)) for k, v in (mapping or {}).items()),
                default if default is None else " ".join(str(default).split())]
        ctx.call("translate", msgid, what)
        return translation(msgid, domain, mapping)

    def sim_code(self, lang, code):
        ctx = self.sim_ctx
        words = code.split()
        ident = words[1] if len(words) == 2 and words[0] == "code" else repr(code)
        n, rec = ctx.call("code", ident, lang)
        if str(ident) not in ctx.values:
            ctx.problems.append("unknown code %s" % ident)
            return ""
        return str(self.sim_make(ctx.value(ident, n)))


class SimIter:
    def __init__(self, engine, name, ident, seq):
        self.engine, self.name, self.ident = engine, name, ident
        self.seq, self.i = seq, 0

    def __next__(self):
        n, rec = self.engine.sim_ctx.call("next", self.ident, None)
        if self.i >= len(self.seq):
            rec[3] = 0
            return False
        rec[3] = 1
        self.engine.setLocal(self.name, self.seq[self.i])
        self.i += 1
        return True


class SimErrorInfo:
    def __init__(self, tag, position):
        self.tag, self.position = tag, position


class SimEngine(EngineBase):
    """Written against ITALExpressionCompiler and ITALExpressionEngine."""

    Default = object()

    def __init__(self, ctx, mode="html"):
        self.sim_ctx = ctx
        self.sim_mode = mode
        self.stack = [{}]
        self.globals = {}

    # compiler

    def getCompilerError(self):
        return CompilerError

    def compile(self, expr):
        return ("sim", expr)

    # engine

    def getDefault(self):
        return self.Default

    def setPosition(self, position):
        self.sim_ctx.pos = tuple(position)

    def setSourceFile(self, source_file):
        self.sim_ctx.file = source_file

    def beginScope(self):
        self.stack.append({})
        self.sim_ctx.depth += 1

    def endScope(self):
        if len(self.stack) == 1:
            self.sim_ctx.problems.append("scope closed that was never opened")
            raise AssertionError("endScope without beginScope")
        self.stack.pop()
        self.sim_ctx.depth -= 1

    def setLocal(self, name, value):
        self.stack[-1][name] = value

    def setGlobal(self, name, value):
        self.globals[name] = value

    def getValue(self, name, default=None):
        found, v = self.sim_lookup(name)
        return v if found else default

    def sim_lookup(self, name):
        for d in reversed(self.stack):
            if name in d:
                return True, d[name]
        if name in self.globals:
            return True, self.globals[name]
        return False, None

    def sim_describe(self, info):
        return "E(%s)" % info.tag

    def evaluate(self, c):
        return self.sim_answer(c[1], "value")

    evaluateValue = evaluate

    def evaluateText(self, c):
        v = self.sim_answer(c[1], "text")
        if v is None or v is self.Default or isinstance(v, str):
            return v
        return str(v)

    def evaluateStructure(self, c):
        return self.sim_answer(c[1], "structure")

    def evaluateBoolean(self, c):
        return self.sim_answer(c[1], "boolean")

    def evaluateMacro(self, c):
        return self.sim_macro(c[1])

    def setRepeat(self, name, c):
        seq = self.sim_answer(c[1], "sequence")
        return SimIter(self, name, parse(c[1])[2], seq)

    def createErrorInfo(self, exception, position):
        tag = self.sim_ctx.tag_of(exception)
        self.sim_ctx.call("errinfo", tag, list(position))
        return SimErrorInfo(tag, position)

    def translate(self, msgid, domain=None, mapping=None, default=None):
        return self.sim_trans(msgid, domain, mapping, default)

    def evaluateCode(self, lang, code):
        return self.sim_code(lang, code)


class Seq:
    """Sequence for the bundled iterator: logs and fails per item access."""

    def __init__(self, ctx, ident, seq):
        self.sim_ctx, self.ident, self.seq = ctx, ident, seq

    def __getitem__(self, i):
        n, rec = self.sim_ctx.call("next", self.ident, None)
        if i >= len(self.seq):
            rec[3] = 0
            raise IndexError(i)
        rec[3] = 1
        return self.seq[i]


class BundledEngine(EngineBase, DummyEngine):

    def __init__(self, ctx, mode="html"):
        DummyEngine.__init__(self, {})
        self.sim_ctx = ctx
        self.sim_mode = mode

    def setPosition(self, position):
        DummyEngine.setPosition(self, position)
        self.sim_ctx.pos = tuple(position)

    def setSourceFile(self, source_file):
        DummyEngine.setSourceFile(self, source_file)
        self.sim_ctx.file = source_file

    def beginScope(self):
        DummyEngine.beginScope(self)
        self.sim_ctx.depth += 1

    def endScope(self):
        if self.sim_ctx.depth == 0:
            self.sim_ctx.problems.append("scope closed that was never opened")
        DummyEngine.endScope(self)
        self.sim_ctx.depth -= 1

    def sim_lookup(self, name):
        try:
            return True, DummyEngine.evaluate(self, "$%s$" % name)
        except TALExpressionError:
            return False, None

    def sim_describe(self, info):
        for e in (info.value, info.type):
            if isinstance(e, BaseException):
                return "E(%s)" % self.sim_ctx.tag_of(e)
        return "E(%s)" % info.type

    def evaluate(self, c):
        assert c.startswith("$") and c.endswith("$"), c
        return self.sim_answer(c[1:-1], "value")

    def evaluateSequence(self, c):
        v = self.evaluate(c)
        return Seq(self.sim_ctx, parse(c[1:-1])[2], v)

    def evaluateMacro(self, c):
        if self.sim_ctx.texts:
            return self.sim_external(c[1:-1])
        return self.sim_macro(c[1:-1])

    def sim_external(self, expr):
        """The macro is in a file, whose contents are other ones at each use."""
        ctx = self.sim_ctx
        ident = macro_id(expr)
        spec = ctx.value(ident, ctx.occ.get(("eval", ident), 0))
        if spec[0] != "mac":
            return self.sim_macro(expr)
        at = ("eval", ident, ctx.occ.get(("eval", ident), 0))
        how = ctx.how.get(at)
        plan = dict(how, exc=ctx.faults.pop(at)) if how and at in ctx.faults else {}
        n, rec = ctx.call("eval", ident, None)
        if not plan:
            rec[3] = ["macro"] + [str(s) for s in spec]

        def make(kind, what):
            tag = "%s/%s/%d" % at
            exc = make_exception(kind, tag)
            ctx.raised.append((tag, exc))
            ctx.fired.append(at)
            return exc

        name = "/sim/m%d.%s" % (ident, self.sim_mode)
        fs = FS({name: ctx.texts[spec[1]].encode("utf-8")}, {name: [plan]}, make)
        with boot.simulated_fs(fs):
            return DummyEngine.evaluateMacro(self, "$%s/%s$" % (name, spec[2]))

    def createErrorInfo(self, err, position):
        n, rec = self.sim_ctx.call("errinfo", self.sim_ctx.tag_of(err), list(position))
        info = DummyEngine.createErrorInfo(self, err, position)
        rec[3] = [info.lineno, info.offset]
        return info

    def translate(self, msgid, domain=None, mapping=None, default=None):
        simulated = self.sim_trans(msgid, domain, mapping, default)
        if isinstance(msgid, Message):
            if bundled_translation(str(msgid), msgid.domain, msgid.mapping) is None:
                return simulated
        elif bundled_translation(msgid, domain, mapping) is None:
            return simulated
        return DummyEngine.translate(self, msgid, domain, mapping, default)

    def evaluateCode(self, lang, code):
        return self.sim_code(lang, code)


ENGINES = {"sim": SimEngine, "bundled": BundledEngine}
