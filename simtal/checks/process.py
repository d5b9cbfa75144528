"""C20: process-wide state; C25: verdicts of the regression driver."""
import builtins
import copy
import decimal
import faulthandler
import gc
import io
import locale
import logging
import os
import random
import re
import signal
import socket
import sys
import tempfile
import threading
import tracemalloc
import warnings

from .. import boot, gen, procs, run, shrink
from ..core import Check, digest
from ..engine import BundledEngine, ENGINES
from ..model import Compiled, Failure, Model, TooMuch
from ..simfs import FS
from ..tree import LANG
from ..values import BASE_EXC, EXC, make_exception
from .common import REAL, modes
from .compiling import damage
from .files import make_exc
from .history import Limited
from .rendering import walk

import zope.tal.driver  # noqa: E402
import zope.tal.runtest  # noqa: E402
import zope.tal.talgettext  # noqa: E402
from zope.tal.dummyengine import DummyEngine  # noqa: E402
from zope.tal.htmltalparser import HTMLTALParser  # noqa: E402
from zope.tal.talinterpreter import TALInterpreter  # noqa: E402


# script code

OPS = ["print", "print", "print", "write", "part", "stderr", "flush", "nested",
       "raise", "exit", "zero", "syntax", "swap", "close"]
FAILING = ("raise", "exit", "zero", "syntax", "swap", "close")


class Boom(BaseException):
    pass


def nested(text, fail):
    """Rendering inside a script: its own engine, its own script."""
    p = HTMLTALParser()
    p.parseString('<script type="text/server-python">print(%r, end="")%s</script>'
                  % (text, "; 1/0" if fail else ""))
    program, macros = p.getCode()
    out = run.Out()
    try:
        TALInterpreter(program, macros, DummyEngine(macros), out, wrap=0)()
    except ZeroDivisionError:
        sys.stdout.write("failed")
    sys.stdout.write(out.text)


def make_ops(rng, ident, bad=.25):
    ops = []
    for n in range(rng.choice([1, 1, 2, 3, 4] * 10 + [30])):
        op = rng.choice(OPS)
        if op in FAILING and rng.random() > bad:
            op = "print"
        if op == "raise":
            ops.append([op, rng.choice(["ValueError", "KeyError", "SystemExit",
                                        "KeyboardInterrupt", "GeneratorExit",
                                        "Boom", "MemoryError", "RecursionError"])])
        elif op in ("print", "write", "part", "stderr"):
            ops.append([op, "[%s.%d:%s:]" % (ident, n, rng.choice(
                ["", "x", "a<b>&\"'", "é", "two\nlines", " ", "\t", "&amp;"] * 9
                + ["long " * 2500]))])
        elif op == "nested":
            ops.append([op, "[%s.%d:%s:]" % (ident, n, "in"), rng.random() < .3])
        else:
            ops.append([op])
    return {"ops": ops, "style": rng.choice(["plain", "indent", "comment", "blank", "tab",
                                            "tight", "inside"]),
            "lang": rng.choice([LANG] * 9 + ["text/server-perl"]
                               if rng.random() < bad * 4 else [LANG])}


def source(script):
    lines = []
    for op in script["ops"]:
        k = op[0]
        if k == "print":
            lines.append("print(%r)" % op[1])
        elif k == "part":
            lines.append("print(%r, end='')" % op[1])
        elif k == "write":
            lines += ["import sys as _sim", "_sim.stdout.write(%r)" % op[1]]
        elif k == "stderr":
            lines += ["import sys as _sim", "_sim.stderr.write(%r)" % op[1]]
        elif k == "flush":
            lines += ["import sys as _sim", "_sim.stdout.flush()"]
        elif k == "nested":
            lines += ["from simtal.checks.process import nested as _sim",
                      "_sim(%r, %r)" % (op[1], op[2])]
        elif k == "raise":
            if op[1] == "Boom":
                lines.append("from simtal.checks.process import Boom as _sim")
            lines.append("raise %s('sim')" % ("_sim" if op[1] == "Boom" else op[1]))
        elif k == "exit":
            lines += ["import sys as _sim", "_sim.exit(3)"]
        elif k == "zero":
            lines.append("1/0")
        elif k == "syntax":
            lines.append("def (:")
        elif k == "swap":             # the script itself misbehaves, and fails
            lines += ["import sys as _sim", "_sim.stdout = 7", "1/0"]
        elif k == "close":
            lines += ["import sys as _sim", "_sim.stdout.close()", "1/0"]
    style = script["style"]
    if style in ("indent", "inside"):
        lines = ["    " + x for x in lines]
    if style == "tab":
        lines = ["\t" + x for x in lines]
    if style == "blank":
        lines = [y for x in lines for y in ("", x, "   ")]
    s = "\n".join(lines) + "\n"
    if style in ("comment", "inside"):
        s = "<!--\n%s-->" % s
    if style == "tight":
        s = "<!--%s-->" % s
    return "\n" + s


def printed(script):
    """(text captured, text on stderr, exception name or None)."""
    out = err = ""
    if script.get("lang", LANG) != LANG:
        return "", "", "AssertionError"
    if any(op[0] == "syntax" for op in script["ops"]):
        return "", "", "SyntaxError"
    for op in script["ops"]:
        k = op[0]
        if k == "print":
            out += op[1] + "\n"
        elif k in ("part", "write"):
            out += op[1]
        elif k == "stderr":
            err += op[1]
        elif k == "nested":
            out += "failed" if op[2] else op[1]
        elif k == "raise":
            return "", err, op[1]
        elif k == "exit":
            return "", err, "SystemExit"
        elif k in ("zero", "swap", "close"):
            return "", err, "ZeroDivisionError"
    return out, err, None


class ScriptEngine(BundledEngine):
    """The bundled engine, running script code for real."""

    def evaluateCode(self, lang, code):
        return DummyEngine.evaluateCode(self, lang, code)


class DictScriptEngine(ScriptEngine):

    def __init__(self, ctx, mode="html"):
        ScriptEngine.__init__(self, ctx, mode)
        self.useEngineAttrDicts = True


ENGINES["script"] = ScriptEngine
ENGINES["dictscript"] = DictScriptEngine


class ScriptModel(Model):

    err = ""

    def code(self, el):
        self.stat("script run")
        out, err, exc = printed(el["code"])
        self.err += err
        if exc:
            self.stat("script failed")
            raise Failure("OTHER", el)
        return out


# process state

tempfile.gettempdir()             # remembered from now on; not a change


def snapshot():
    """What has to stay as it is; name -> comparable value."""
    d = {}
    for n in ("stdin", "stdout", "stderr", "__stdin__", "__stdout__", "__stderr__",
              "excepthook", "displayhook", "unraisablehook", "breakpointhook"):
        d["sys." + n] = id(getattr(sys, n, None))
    d["streams"] = [[f.closed, {k: id(v) for k, v in getattr(f, "__dict__", {}).items()}]
                    for f in (sys.stdout, sys.stderr) if f is not None]
    d["sys.argv"] = [id(sys.argv), list(sys.argv)]
    d["sys.path"] = [id(sys.path), list(sys.path)]
    d["sys.path_hooks"] = len(sys.path_hooks)
    d["sys.meta_path"] = [id(x) for x in sys.meta_path]
    d["recursion limit"] = sys.getrecursionlimit()
    d["switch interval"] = sys.getswitchinterval()
    d["int digits"] = sys.get_int_max_str_digits()
    d["trace"] = [id(sys.gettrace()), id(sys.getprofile()),
                  id(threading.gettrace()), id(threading.getprofile())]
    d["write bytecode"] = sys.dont_write_bytecode
    d["warning filters"] = list(map(str, warnings.filters))
    d["warnings"] = [id(warnings.showwarning), id(warnings.formatwarning)]
    d["environment"] = dict(os.environ)
    d["directory"] = os.getcwd()
    d["locale"] = locale.setlocale(locale.LC_ALL)
    d["gc"] = [gc.isenabled(), gc.get_threshold(), gc.get_debug()]
    d["signals"] = [id(signal.getsignal(s)) for s in
                    (signal.SIGINT, signal.SIGTERM, signal.SIGALRM, signal.SIGPIPE,
                     signal.SIGHUP, signal.SIGCHLD)]
    d["builtins"] = {k: id(v) for k, v in vars(builtins).items()}
    d["logging"] = [[id(h) for h in logging.root.handlers], logging.root.level,
                    logging.root.manager.disable]
    d["threads"] = threading.active_count()
    d["random"] = hash(random.getstate())
    d["socket timeout"] = socket.getdefaulttimeout()
    d["decimal"] = str(decimal.getcontext())
    mask = os.umask(0o77)
    os.umask(mask)
    d["umask"] = mask
    d["traceback limit"] = getattr(sys, "tracebacklimit", None)
    d["temporary directory"] = tempfile.tempdir
    d["exception"] = sys.exc_info()[0]
    d["stack size"] = threading.stack_size()
    d["debugging"] = [faulthandler.is_enabled(), tracemalloc.is_tracing(),
                      sys.get_coroutine_origin_tracking_depth()]
    d["hooks"] = [id(threading.excepthook), id(sys.exit),
                  [id(h) for h in sys.get_asyncgen_hooks()]]
    return d


def changed(before, after):
    for k in before:
        if before[k] != after[k]:
            return k
    return None


class Sentinel(io.StringIO):
    """Stands for the process's own stdout or stderr."""

    def close(self):
        self.shut = True    # which is a change; what was written can still be read


class process:
    """The process's streams and arguments, for the length of one operation."""

    def __init__(self, argv=None):
        self.argv = argv

    def __enter__(self):
        self.saved = sys.stdout, sys.stderr, sys.argv
        self.out, self.err = Sentinel(), Sentinel()
        sys.stdout, sys.stderr = self.out, self.err
        if self.argv is not None:
            sys.argv = list(self.argv)
        self.before = snapshot()
        return self

    def __exit__(self, *exc):
        sys.stdout, sys.stderr, sys.argv = self.saved

    def leave(self):
        """First setting found changed, if any."""
        return changed(self.before, snapshot())


def operation(fn):
    try:
        fn()
        return None
    except BaseException as e:
        return e.with_traceback(None)


# templates for the drivers, with expressions the bundled engine understands

NS = (' xmlns:tal="http://xml.zope.org/namespaces/tal"'
      ' xmlns:metal="http://xml.zope.org/namespaces/metal"'
      ' xmlns:i18n="http://xml.zope.org/namespaces/i18n"')
FAILS = ["python:1/0", "nosuch", "weird:x", "python:(", "python:[][0]"]


def make_items(rng, mode, depth=0, fail=.12):
    items = []
    for n in range(rng.choice([1, 2, 3, 4])):
        r = rng.random()
        if r < fail:
            items.append(["fail", rng.choice(FAILS)])
        elif r < .3:
            items.append(["text", "w%d" % rng.randrange(100)])
        elif r < .45:
            items.append(["str", rng.choice(["a b", "x", "one two", "é"])])
        elif r < .55:
            items.append(["trans", rng.choice(["some text", "word", "x y"])])
        elif r < .65:
            items.append(["macro", "w%d" % rng.randrange(100)])
        elif r < .85 and mode == "html":
            items.append(["script", make_ops(rng, "s%d" % rng.randrange(1000), .15)])
        elif depth < 3 and r < .93:
            items.append(["guard", make_items(rng, mode, depth + 1, .35)])
        elif depth < 3:
            items.append(["loop", rng.choice([0, 1, 2, 3] * 5 + [30]),
                          make_items(rng, mode, depth + 1, fail)])
    return items


class Doc:
    """Text of a driver template, and what the driver prints for it.

    The bars keep white space away from repeated elements, which own the
    white space before them.
    """

    def __init__(self, items, mode):
        self.n = 0
        self.src = self.write(items)
        if mode == "xml":
            self.src = "<r%s>%s</r>\n" % (NS, self.src)
        self.failed = None
        self.err = ""
        self.out = self.render(items)
        if mode == "xml":
            self.out = "<r>" + self.out + ("" if self.failed else "</r>\n")

    def write(self, items):
        out = ["|"]
        for it in items:
            k = it[0]
            if k == "text":
                out.append("<b>%s</b>\n|" % it[1])
            elif k == "str":
                out.append('<i tal:content="string:%s">d</i>\n|' % it[1])
            elif k == "trans":
                out.append('<em i18n:translate="">%s</em>\n|' % it[1])
            elif k == "fail":
                out.append('<u tal:content="%s">d</u>\n|' % it[1])
            elif k == "macro":
                self.n += 1
                out.append('<p metal:define-macro="m%d">%s</p>\n<q metal:use-macro='
                           '"m%d">d</q>\n|' % (self.n, it[1], self.n))
            elif k == "script":
                out.append('<script type="%s">%s</script>\n|'
                           % (it[1].get("lang", LANG), source(it[1])))
            elif k == "guard":
                out.append('<div tal:on-error="string:E">%s</div>\n|'
                           % self.write(it[1]))
            elif k == "loop":
                out.append('<s tal:repeat="x python:list(range(%d))">%s</s>\n|'
                           % (it[1], self.write(it[2])))
        return "".join(out)

    def render(self, items):
        """Sets self.failed to the name of the exception that stops it."""
        out = "|"
        for it in items:
            k = it[0]
            if k == "text":
                out += "<b>%s</b>\n|" % it[1]
            elif k == "str":
                out += "<i>%s</i>\n|" % it[1]
            elif k == "trans":
                out += "<em>%s</em>\n|" % it[1].upper()
            elif k == "macro":
                out += "<p>%s</p>\n<p>%s</p>\n|" % (it[1], it[1])
            elif k == "fail":
                self.failed = "TALExpressionError"
                return out
            elif k == "script":
                text, err, self.failed = printed(it[1])
                self.err += err
                out += text
                if self.failed:
                    return out
                out += "\n|"
            elif k == "guard":
                s = self.render(it[1])
                if self.failed:
                    self.failed = None
                    s = "E"
                out += "<div>%s</div>\n|" % s
            elif k == "loop":
                for _ in range(it[1]):
                    s = self.render(it[2])
                    if self.failed:
                        return out + s
                    out += "<s>%s</s>" % s
                out += "\n|"
        return out


def item_reductions(items):
    for i in range(len(items)):
        yield items[:i] + items[i + 1:]
    for i, it in enumerate(items):
        if it[0] in ("guard", "loop"):
            yield items[:i] + it[-1] + items[i + 1:]
            for small in item_reductions(it[-1]):
                yield items[:i] + [it[:-1] + [small]] + items[i + 1:]
        elif it[0] == "script":
            for small in script_reductions(it[1]):
                yield items[:i] + [["script", small]] + items[i + 1:]


def script_reductions(script):
    for i in range(len(script["ops"])):
        yield dict(script, ops=script["ops"][:i] + script["ops"][i + 1:])
    if script["style"] != "plain":
        yield dict(script, style="plain")
    if script["lang"] != LANG:
        yield dict(script, lang=LANG)


TOKEN = re.compile(r"\[n?\w+\.\d+:.*?:\]", re.S)
OPTIONS = [[], [], [], ["-s"], ["-a"], ["-t"], ["-i"], ["-l"], ["-m"], ["-x"], ["-H"],
           ["--nonsense"], ["-h"], ["extra"]]


class C20(Check):
    id = "C20"
    technique = "deterministic simulation with fault injection: failing scripts, " \
        "expressions, streams and files under a simulated process environment"
    real = REAL + ["DummyEngine.evaluateCode (really executes the script code)",
                   "zope.tal.driver, zope.tal.runtest, zope.tal.talgettext"]
    stubs = ["files", "process stdout/stderr (in-memory stand-ins whose identity "
             "and content is checked)", "expression answers"]
    runs = {"quick": 60000, "thorough": 400000}
    rule = ("a run counts if a script, expression, stream or file failed, or at "
            "least one script printed; distinct by operation, output and ending")
    states_are = "distinct (operation, how it ended, number of scripts up to 5)"

    def generate(self, rng):
        op = rng.choice(["render"] * 5 + ["driver"] * 2 + ["runtest", "extract",
                                                           "compile"])
        if op in ("render", "extract"):
            case = gen.make_case(
                rng, rng.choice(["general", "error", "i18n", "metal", "struct"]),
                nfaults=rng.choice([0, 0, 1, 2]), mode="html", engine="bundled",
                script=.25, base=True,
                opts={"sourceAnnotations": int(rng.random() < .1)})
            if case is None:
                return None
            case["op"] = op
            case["render"]["engine"] = rng.choice(["script", "script", "dictscript"])
            for f in sorted(case["templates"]):
                for el in walk(case["templates"][f]["kids"]):
                    if "script" in el:
                        el["code"] = make_ops(rng, "s%d" % el["script"])
                        el["source"] = source(el["code"])
                        el["lang"] = el["code"]["lang"]
            if rng.random() < .2:
                case["stream"] = [rng.randrange(40), rng.choice(EXC + BASE_EXC)]
            try:
                self.model(case)
            except TooMuch:
                return None
            return case
        mode = rng.choice(["html", "html", "xml"])
        if op == "compile":
            items = make_items(rng, mode)
            text = Doc(items, mode).src
            return {"op": op, "mode": mode, "text": damage(rng, text, mode),
                    "plan": make_plan(rng, .3)}
        if op == "driver":
            return {"op": op, "mode": mode, "items": make_items(rng, mode),
                    "options": rng.choice(OPTIONS), "plan": make_plan(rng, .15)}
        case = make_runtest(rng)
        case["op"] = "runtest"
        if rng.random() < .3:
            case["out"] = [rng.randrange(12), rng.choice(EXC + BASE_EXC)]
        return case

    def model(self, case):
        return ScriptModel(Compiled(case["templates"]), case["render"],
                           named=case["named"]).run(case["main"])

    def judge(self, case, v):
        op = case["op"]
        getattr(self, "do_" + op)(case, v)

    def ended(self, case, v, p, error, scripts=0, out=""):
        """Common end of every operation; True if the state was left alone."""
        ename = "ok" if error is None else type(error).__name__
        if error is not None:
            v.faults["%s ends with %s" % (case["op"], ename)] += 1
        v.counts[case["op"] + " operations"] += 1
        v.counts["scripts run"] += scripts
        v.states.add("%s %s %d" % (case["op"], ename, min(5, scripts)))
        v.sample = {"operation": case["op"], "end": ename, "scripts": scripts}
        v.sig = digest(case["op"], out, ename)
        v.ticks = max(1, scripts)
        v.nontrivial = error is not None or scripts > 0
        k = self.left
        if k:
            v.fail("state", "%s changed by %s that ended with %s"
                   % (k, case["op"], ename))
            return False
        return True

    def do_render(self, case, v):
        c = Compiled(case["templates"])
        m = self.model(case)
        render = case["render"]
        programs = run.compile_all(c.text, modes(c), render["engine"], case["named"])
        stream = run.Out()
        if "stream" in case:
            stream = Limited(case["stream"][0],
                             make_exception(case["stream"][1], "stream"))
        with process() as p:
            r = run.render(programs, case["main"], m.mode, render, stream)
            r.exc, exc = None, r.exc
            exc = exc and exc.with_traceback(None)
            self.left = p.leave()
            out, err = p.out.getvalue(), p.err.getvalue()
        for at in r.fired:
            v.faults["%s fails" % at[0]] += 1
        v.faults["script fails"] += m.stats.get("script failed", 0)
        if not self.ended(case, v, p, exc, m.stats.get("script run", 0), stream.text):
            return
        if out:
            return v.fail("stray output", "the process's stdout got %r" % out)
        if case.get("stream"):
            return
        if r.outcome != m.outcome:
            return v.fail("ending", "ended %s, expected %s" % (r.outcome, m.outcome))
        if err != m.err:
            return v.fail("stderr", "got %r, expected %r" % (err, m.err))
        if m.outcome == ["ok"]:
            a, b = TOKEN.findall(stream.text), TOKEN.findall(m.out)
            if a != b:
                return v.fail("captured", "printed output in the rendering: %s, "
                              "expected %s" % (a, b))
            v.counts["captured outputs compared"] += len(b)

    def do_extract(self, case, v):
        c = Compiled(case["templates"])
        stream = run.Out()
        if "stream" in case:
            stream = Limited(case["stream"][0],
                             make_exception(case["stream"][1], "stream"))

        def work():
            engine = zope.tal.talgettext.POEngine()
            engine.file = "f"
            for f in sorted(c.text):
                p = HTMLTALParser()
                p.parseString(c.text[f])
                program, macros = p.getCode()
                zope.tal.talgettext.POTALInterpreter(
                    program, macros, engine, stream=stream, metal=False)()
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            with process() as p:
                error = operation(work)
                self.left = p.leave()
                out = p.out.getvalue()
        self.ended(case, v, p, error, out=stream.text)
        if out and not v.violation:
            v.fail("stray output", "the process's stdout got %r" % out)

    def do_compile(self, case, v):
        name = "/sim/t." + case["mode"]
        fs = FS({name: case["text"].encode("utf-8", "surrogateescape")},
                {name: [case["plan"]]}, make_exc)
        with boot.simulated_fs(fs), process() as p:
            error = operation(lambda: zope.tal.driver.compilefile(name))
            self.left = p.leave()
            out = p.out.getvalue() + p.err.getvalue()
        self.ended(case, v, p, error, out=case["text"])
        if out and not v.violation:
            v.fail("stray output", "the process's stdout or stderr got %r" % out)

    def do_driver(self, case, v):
        mode = case["mode"]
        doc = Doc(case["items"], mode)
        name = "/sim/t." + mode
        fs = FS({name: doc.src.encode("utf-8")}, {name: [case["plan"]]}, make_exc)
        argv = ["driver.py"] + case["options"] + [name]
        if case["options"] == ["-h"]:
            argv = ["driver.py"]
        with boot.simulated_fs(fs), process(argv) as p:
            error = operation(zope.tal.driver.main)
            self.left = p.leave()
            out, err = p.out.getvalue(), p.err.getvalue()
        scripts = sum(i[0] == "script" for i in case["items"])
        if not self.ended(case, v, p, error, scripts, out):
            return
        if not case["options"] and not case["plan"] and not doc.failed:
            if error is not None:
                return v.fail("ending", "ended with %r" % (error,))
            a, b = TOKEN.findall(out), TOKEN.findall(doc.out)
            if a != b:
                return v.fail("captured", "printed output in the rendering: %s, "
                              "expected %s" % (a, b))
            if err != doc.err:
                return v.fail("stderr", "got %r, expected %r" % (err, doc.err))
            v.counts["captured outputs compared"] += len(b)

    def do_runtest(self, case, v):
        fs, argv = runtest_files(case)
        stream = io.StringIO()
        if "out" in case:
            stream = Limited(case["out"][0], make_exception(case["out"][1], "out"))
        with boot.simulated_fs(fs), process(["runtest.py"]) as p:
            error = operation(lambda: zope.tal.runtest.main(argv, stream))
            self.left = p.leave()
            out = p.out.getvalue()
        if not self.ended(case, v, p, error, out=[argv, len(out)]):
            return
        if out:
            v.fail("stray output", "the process's stdout got %r" % out)

    def reductions(self, case):
        if "stream" in case:
            c = copy.deepcopy(case)
            del c["stream"]
            yield c
        if "templates" in case:
            yield from shrink.render_case(case)
            for f in sorted(case["templates"]):
                els = [el for el in walk(case["templates"][f]["kids"]) if "code" in el]
                for n, el in enumerate(els):
                    for small in script_reductions(el["code"]):
                        c = copy.deepcopy(case)
                        e = [x for x in walk(c["templates"][f]["kids"])
                             if "code" in x][n]
                        e["code"], e["source"] = small, source(small)
                        e["lang"] = small["lang"]
                        yield c
        if "items" in case:
            for small in item_reductions(case["items"]):
                yield dict(case, items=small)
            if case["options"]:
                yield dict(case, options=[])
        if case.get("plan"):
            yield dict(case, plan={})
        if "files" in case:
            yield from runtest_reductions(case)


def make_plan(rng, p):
    if rng.random() > p:
        return {}
    kind = rng.choice(EXC + BASE_EXC + ["OSError", "FileNotFoundError",
                                        "PermissionError"] * 4)
    return rng.choice([{"open": 1, "exc": kind}, {"read": 1, "exc": kind},
                       {"read": 2, "exc": kind, "sizes": [30]}])


# C25

def make_runtest(rng):
    files = []
    for n in range(rng.choice([1, 2, 3, 4, 5] * 15 + [15, 40])):
        mode = rng.choice(["html", "html", "xml"])
        kind = ""
        if rng.random() < .25:
            # names that make the driver add options
            kind = rng.choice(["_metal", "_sa", "_metal_sa"])
        one = {"name": "f%d%s.%s" % (n, kind, mode), "mode": mode,
               "items": make_items(rng, mode, fail=.05),
               "expect": rng.choice(["right"] * 5 + ["char", "cut", "more", "missing",
                                                     "unopenable", "empty"])}
        r = rng.random()
        if r < .1:
            one["plan"] = make_plan(rng, 1)
        elif r < .2:
            one["text"] = damage(rng, Doc(one["items"], mode).src, mode)
        files.append(one)
    if rng.random() < .1:
        files.append(copy.deepcopy(rng.choice(files)))
    case = {"files": files, "quiet": rng.choice(["-q", "-q", "-Q", ""]),
            "at": rng.random()}
    if rng.random() < .1:
        case["options"] = rng.sample(["-l", "-t", "-i", "-a", "-m", "-H", "-x", "-N",
                                      "-s"], rng.choice([1, 1, 2, 3]))
    return case


class Alone:
    """What the driver prints for a file in a process of its own."""

    def __init__(self, one, options):
        self.src = Doc(one["items"], one["mode"]).src
        self.failed, self.out = procs.result(self.run, one, options)

    def run(self, one, options):
        name = "/sim/input/" + one["name"]
        options = [o for o in options if o != "-N"] + \
            (["-m"] if "metal" in name else []) + \
            (["-a"] if "_sa" in name else [])
        with boot.simulated_fs(FS({name: self.src.encode("utf-8")})), \
                process(["driver.py"] + options + [name]) as p:
            error = operation(zope.tal.driver.main)
        return error is not None and type(error).__name__, p.out.getvalue()


def doc_of(one, options):
    if ("_" in one["name"] or options) and "text" not in one and not one.get("plan"):
        return Alone(one, options)
    return Doc(one["items"], one["mode"])


def runtest_files(case):
    data, plans = {}, {}
    argv = [case["quiet"]] if case["quiet"] else []
    argv += case.get("options", [])
    for one in case["files"]:
        name = "/sim/input/" + one["name"]
        doc = one["_doc"] = doc_of(one, case.get("options", []))
        data[name] = one.get("text", doc.src).encode("utf-8", "surrogateescape")
        plans.setdefault(name, []).append(one.get("plan", {}))
        res = "/sim/output/" + one["name"]
        want = doc.out
        e = one["expect"]
        at = int(case["at"] * len(want))
        if e == "char" and want:
            want = want[:at] + "#" + want[at + 1:]
        elif e == "cut":
            want = want[:at]
        elif e == "more":
            want += "more\n"
        elif e == "empty":
            want = ""
        if e != "missing":
            data[res] = want.encode("utf-8")
        plans.setdefault(res, []).append(
            {"open": 1, "exc": "PermissionError"} if e == "unopenable" else {})
        one["_want"] = want if e not in ("missing", "unopenable") else None
        argv.append(name)
    return FS(data, plans, make_exc), argv


def runtest_reductions(case):
    yield from shrink.items(case, "files")
    if case.get("options"):
        for c in shrink.items(case, "options"):
            yield c
    for i, one in enumerate(case["files"]):
        for k in ("plan", "text"):
            if k in one:
                c = copy.deepcopy(case)
                del c["files"][i][k]
                yield c
        for small in item_reductions(one["items"]):
            c = copy.deepcopy(case)
            c["files"][i]["items"] = small
            yield c


LINE = re.compile(r"/sim/input/(f\w+\.\w+) (?:\(missing file \S+\) )?(OK|not OK|\w+)")


class C25(Check):
    id = "C25"
    technique = "deterministic simulation with fault injection: sequences of files " \
        "of which some cannot be read, parsed, rendered or compared"
    real = REAL + ["zope.tal.runtest, zope.tal.driver, zope.tal.dummyengine "
                   "(evaluation included)"]
    stubs = ["files", "process stdout/stderr"]
    runs = {"quick": 50000, "thorough": 300000}
    rule = ("a run counts if at least two files were given and they did not all "
            "get the same verdict; distinct by the sequence of verdicts and sources")
    states_are = "distinct sequences of (expected verdict) up to four files"

    def generate(self, rng):
        return make_runtest(rng)

    def judge(self, case, v):
        fs, argv = runtest_files(case)
        stream = io.StringIO()
        with boot.simulated_fs(fs), process(["runtest.py"]):
            result = []
            error = operation(
                lambda: result.append(zope.tal.runtest.main(argv, stream)))
        got = LINE.findall(stream.getvalue())
        want = []
        exit_early = False
        known = True
        for one in case["files"]:
            doc = one["_doc"]
            plan = one.get("plan", {})
            if plan and plan["exc"] == "SystemExit":
                exit_early = True
                break
            if "text" in one:
                want.append((one["name"], None))
                known = False
            elif plan:
                want.append((one["name"], "failed"))
            elif doc.failed == "SystemExit":
                exit_early = True
                break
            elif doc.failed:
                want.append((one["name"], "failed"))
            else:
                want.append((one["name"],
                             "OK" if one["_want"] == doc.out else "not OK"))
            v.counts["verdict %s" % want[-1][1]] += 1
            if want[-1][1] == "failed":
                v.faults["file fails"] += 1
        if plan_count(case):
            v.faults["file cannot be read"] += plan_count(case)
        v.ticks = len(want)
        v.sig = digest(stream.getvalue(), case["quiet"], data_of(case))
        v.nontrivial = len({w for n, w in want}) > 1 and len(want) > 1
        v.states.add(" ".join(str(w) for n, w in want[:4]))
        v.sample = {"verdicts": [w for n, w in want], "quiet": case["quiet"]}
        if exit_early:
            if known and not isinstance(error, SystemExit):
                v.fail("exit", "a file ended the process, the driver did not: %r"
                       % error)
            return
        if error is not None and not isinstance(error, SystemExit):
            return v.fail("stopped", "%s: %s" % (type(error).__name__, error))
        if known:
            bad = any(w != "OK" for n, w in want)
            status = error is not None or bool(result and result[0])
            if status != bad:
                return v.fail("status", "exit status says %s, verdicts are %s"
                              % (status, want))
            if error is not None and error.code != 1:
                return v.fail("status", "exit status %r" % (error.code,))
        if case["quiet"] == "-Q":
            return
        i = 0
        for name, verdict in want:
            if i >= len(got) or got[i][0] != name:
                if not known:
                    return            # an unpredicted file may have ended it
                return v.fail("file lost", "%s was not reported: %s" % (name, got))
            g = got[i][1]
            g = g if g in ("OK", "not OK") else "failed"
            i += 1
            if verdict is not None and g != verdict:
                return v.fail("verdict", "%s: %s, expected %s" % (name, got[i - 1],
                                                                  verdict))
        if len(got) != len(want) and known:
            return v.fail("reported twice", "%s, expected %s" % (got, want))

    def reductions(self, case):
        yield from runtest_reductions(case)


def plan_count(case):
    return sum("plan" in one for one in case["files"])


def data_of(case):
    return [one["items"] for one in case["files"]]
