"""Running the code under test."""
import io
import sys

from . import boot

sys.setrecursionlimit(20000)

boot.load()

from zope.tal.htmltalparser import HTMLTALParser  # noqa: E402
from zope.tal.talgenerator import TALGenerator  # noqa: E402
from zope.tal.talinterpreter import TALInterpreter  # noqa: E402
from zope.tal.talparser import TALParser  # noqa: E402

from . import tree  # noqa: E402
from .engine import Budget, Context, ENGINES  # noqa: E402

OTHER = {
    "html": '<r%s><b metal:define-macro="om">OTHER</b></r>' % tree.XMLNS,
    "xml": '<b metal:define-macro="om">OTHER</b>',
}


class Out:
    """An output stream: accepts text, nothing else."""

    def __init__(self):
        self.parts = []

    def write(self, s):
        if not isinstance(s, str):
            raise TypeError("text expected, got %r" % type(s))
        self.parts.append(s)

    @property
    def text(self):
        return "".join(self.parts)


def compiler(kind):
    return ENGINES[kind](Context({"values": {}}, {}))


def parser_for(mode, comp, name):
    gen = TALGenerator(comp, xml=mode == "xml", source_file=name)
    return TALParser(gen) if mode == "xml" else HTMLTALParser(gen)


def compile_text(text, mode, kind="sim", name=None, comp=None):
    p = parser_for(mode, compiler(kind) if comp is None else comp, name)
    p.parseString(text)
    return p.getCode()


def compile_all(texts, modes, kind="sim", named=True):
    """texts: {file: text}.  Returns {file: (program, macros)}.

    named: do the compiled templates know their names; or the list of those
    that do."""
    programs = {}
    for f in texts:
        known = named is True or named and f in named
        programs[f] = compile_text(texts[f], modes[f], kind, f if known else None)
    mode = next(iter(modes.values()))
    programs["other"] = compile_text(
        OTHER[mode], "xml" if mode == "html" else "html", kind, None)
    return programs


def show(e):
    try:
        return str(e)
    except Exception:
        return "(cannot be shown)"


class Result:
    pass


def start(programs, main, mode, render, stream=None, budget=20000, point=None):
    """Prepare one rendering; returns (interpreter, context, stream)."""
    ctx = Context(render, programs, budget)
    ctx.point = point
    engine = ENGINES[render.get("engine", "sim")](ctx, mode)
    if stream is None:
        stream = Out()
    elif stream is False:
        stream = None                    # the process's output
    opts = dict(render.get("opts", {}))
    opts.setdefault("wrap", 0)
    program, macros = programs[main]
    try:
        it = TALInterpreter(program, macros, engine, stream, **opts)
    except BaseException as e:
        it = failing(e)
    return it, ctx, stream


def failing(e):
    def it():
        raise e
    return it


def finish(it, ctx, stream):
    """Run a prepared rendering to its end."""
    r = Result()
    r.exc = None
    stderr = sys.stderr
    if ctx.debug:
        sys.stderr = io.StringIO()       # it says what it does
    try:
        it()
        r.outcome = ["ok"]
    except Budget:
        r.outcome = ["runaway"]
    except BaseException as e:
        r.exc = e
        r.outcome = ["exc", ctx.tag_of(e)]
        r.exctype = type(e).__name__
        r.detail = "%s: %s" % (type(e).__name__, show(e)[:200])
    finally:
        sys.stderr = stderr
    r.out = stream.text if hasattr(stream, "text") else None
    r.log = ctx.log
    r.fired = ctx.fired
    r.raised = ctx.raised
    r.file, r.pos = ctx.file, tuple(ctx.pos)
    r.depth = ctx.depth
    r.problems = ctx.problems
    return r


def render(programs, main, mode, render, stream=None, budget=20000):
    return finish(*start(programs, main, mode, render, stream, budget))
