"""C17: inputs are released."""
import copy

from .. import boot, run, shrink
from ..core import Check, digest
from ..engine import Context, ENGINES
from ..model import Compiled
from ..simfs import FS
from ..values import BASE_EXC, EXC, make_exception
from .common import REAL
from .compiling import damage
from .history import alone, difference, make_group, make_render, observe

import zope.tal.driver  # noqa: E402
from zope.tal.taldefs import TALError  # noqa: E402


class C17(Check):
    id = "C17"
    technique = "deterministic simulation with fault injection: simulated files and " \
        "URLs with failing opens and reads, damaged templates, failing compiler"
    real = REAL + ["zope.tal.driver.compilefile"]
    stubs = ["files and URLs (in memory; raw reads fail or are short as the case "
             "says, buffering and decoding are the real io module)",
             "expression compiler"]
    runs = {"quick": 30000, "thorough": 240000}
    rule = ("a run counts if something failed between open and the end of the "
            "compilation; distinct by what was opened, failed and returned")
    states_are = "distinct (entry point, failure, exception type) combinations"

    def generate(self, rng):
        g = make_group(rng, ["general", "tal", "metal", "i18n"],
                       size=rng.choice([4, 8, 14]), positions=(0,))
        if g is None:
            return None
        mr = make_render(rng, g, nfaults=0)
        if mr is None:
            return None
        g["main"], g["render"] = mr
        mode = g["templates"][g["main"]]["mode"]
        vias = ["file", "file", "driver"] + (["url", "url"] if mode == "xml" else [])
        case = {"group": g, "via": rng.choice(vias), "tries": []}
        if case["via"] == "driver":
            g["engine"] = g["render"]["engine"] = "bundled"
            g["render"]["opts"].pop("sourceAnnotations", None)
        for _ in range(rng.choice([1, 1, 2, 3])):
            t = {}
            r = rng.random()
            kind = rng.choice(EXC + BASE_EXC + ["OSError", "FileNotFoundError",
                                                "PermissionError"] * 4)
            if r < .2:
                t["plan"] = {"open": 1, "exc": kind}
            elif r < .5:
                t["plan"] = {"read": rng.choice([1, 1, 2, 2, 3, 5]), "exc": kind,
                             "sizes": [rng.choice([1, 10, 100, 5000])]}
            elif r < .6:
                t["bytes"] = [rng.random(), rng.choice([0xff, 0x80, 0xc3, 0])]
            elif r < .8:
                text = Compiled(g["templates"]).text[g["main"]]
                t["text"] = damage(rng, text, mode)
            elif r < .9:
                t["compiler"] = [rng.randint(1, 6),
                                 rng.choice(EXC + BASE_EXC + ["CompilerError"] * 8)]
            case["tries"].append(t)
        case["tries"].append({})
        return case

    def judge(self, case, v):
        g = case["group"]
        main = g["main"]
        mode = g["templates"][main]["mode"]
        c = Compiled(g["templates"])
        want = alone(g, main, g["render"])
        if want is None:
            v.counts["compile failed"] += 1
            return
        name = "/sim/dir/" + main.replace(".pt", "." + mode)
        if case["via"] == "url":
            name = "http://sim/" + main
        sig = []
        for n, t in enumerate(case["tries"]):
            text = t.get("text", c.text[main])
            data = text.encode("utf-8")
            if "bytes" in t:
                at = int(t["bytes"][0] * len(data))
                data = data[:at] + bytes([t["bytes"][1]]) + data[at:]
            fs = FS({name: data}, {name: [t.get("plan", {})]}, make_exc)
            comp_raised = []
            program = error = None
            try:
                with boot.simulated_fs(fs):
                    program = self.compile(case, g, mode, name, main, t, comp_raised)
            except BaseException as e:
                error = e
            left = fs.left_open()
            v.ticks += fs.ticks + 1
            what = (["open" if "open" in t["plan"] else "read"] if t.get("plan")
                    else [k for k in ("bytes", "text", "compiler") if k in t])
            ename = type(error).__name__ if error is not None else "ok"
            sig.append([case["via"], what, ename, len(fs.handles)])
            v.states.add("%s %s %s" % (case["via"], what, ename))
            injected = [e for _, e in fs.raised] + comp_raised
            for w, e in fs.raised:
                v.faults["%s fails with %s" % (w, type(e).__name__)] += 1
            for e in comp_raised:
                v.faults["compiler fails with %s" % type(e).__name__] += 1
            if error is not None and not injected:
                v.faults["damaged input"] += 1
            v.nontrivial = v.nontrivial or (error is not None and bool(fs.handles))
            if not fs.opened and error is None:
                return v.fail("not opened", "nothing was opened")
            if left:
                return v.fail("left open", "%s still open after %s"
                              % (left[0], "%s: %s" % (ename, run.show(error))))
            if injected:
                e = injected[0]
                if error is None:
                    return v.fail("swallowed", "%s was swallowed" % type(e).__name__)
                if error is not e and not (comp_raised and isinstance(error, TALError)
                                           and t["compiler"][1] == "CompilerError"):
                    return v.fail("replaced", "%r reached the caller instead of %r"
                                  % (type(error), type(e)))
            if error is not None and mode == "html" and case["via"] == "file" and \
                    isinstance(error, TALError) and not fs.raised and \
                    name not in run.show(error):
                return v.fail("unnamed", "the error does not name the file: %s"
                              % run.show(error))
            if not t:
                if error is not None:
                    return v.fail("not repeatable", "compiling the readable file "
                                  "failed: %s: %s" % (ename, run.show(error)))
                v.counts["later compilations compared"] += 1
                d = difference(self.show(g, c, main, mode, program), want)
                if d and case["via"] != "driver":
                    return v.fail("program", "%s: %s" % d)
                if d and d[0] != "calls":
                    return v.fail("program", "%s: %s" % d)
        v.sig = digest(sig, case["tries"])
        v.sample = {"via": case["via"], "tries": sig}

    def compile(self, case, g, mode, name, main, t, raised):
        kind = g["engine"]
        if case["via"] == "driver":
            # the driver uses the bundled compiler
            return zope.tal.driver.compilefile(name, mode)
        comp = ENGINES[kind](Context({"values": {}}, {}))
        if "compiler" in t:
            n, exc = t["compiler"]
            real = comp.compile
            count = [0]

            def compile(expr):
                count[0] += 1
                if count[0] == n:
                    if exc == "CompilerError":
                        e = comp.getCompilerError()("simulated")
                    else:
                        e = make_exception(exc, "compile")
                    raised.append(e)
                    raise e
                return real(expr)
            comp.compile = compile
        p = run.parser_for(mode, comp, main)
        if case["via"] == "url":
            p.parseURL(name)
        else:
            p.parseFile(name)
        return p.getCode()

    def show(self, g, c, main, mode, program):
        texts = {f: s for f, s in c.text.items() if f != main}
        modes = {f: mode for f in c.text}
        programs = run.compile_all(texts, modes, g["engine"], True)
        programs[main] = program
        return observe(run.render(programs, main, mode, g["render"]))

    def reductions(self, case):
        yield from shrink.items(case, "tries")
        for small in shrink.templates(case["group"]):
            yield dict(copy.deepcopy(case), group=small)


def make_exc(kind, what):
    if kind in ("FileNotFoundError", "PermissionError"):
        import builtins
        return getattr(builtins, kind)(2, "simulated", what)
    return make_exception(kind, what)
