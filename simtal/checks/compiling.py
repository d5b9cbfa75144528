"""C08: compilations next to and after each other."""
import copy
import math

from .. import procs, run, sched, shrink, tree
from ..core import Check, digest
from ..engine import ENGINES, CompilerError, Context
from ..model import Compiled
from ..values import BASE_EXC, EXC, make_exception
from .common import REAL, STUBS, modes
from .history import alone, compile_group, difference, make_group, make_render, \
    observe
from .threads import make_schedule, schedule_reductions


def damage(rng, text, mode):
    """A template with a mistake in it."""
    p = rng.randrange(len(text) + 1)
    how = rng.choice(["cut", "cut", "insert", "insert", "insert", "drop"])
    if how == "cut":
        return text[:p]
    if how == "drop":
        return text[:p] + text[p + rng.randint(1, 6):]
    bits = ["</b>", "<b", "<tal:x tal:foo='1'>", "<i tal:content='k:1' "
            "tal:replace='k:2'>", "<b metal:fill-slot='x'>", "<b i18n:name='x'/>",
            "<b tal:repeat='x'>", "<b metal:define-slot='s'></b>", "&", "<p>",
            "<b tal:define='1x y'>", "<br></br>", "<b a='1' a='2'>",
            "<b metal:define-macro='m' metal:use-macro='n'>", "</html>",
            "<b i18n:attributes='a b c'>", "<![CDATA[", "<b i18n:translate=''>"]
    return text[:p] + rng.choice(bits) + text[p:]


def compile_one(text, mode, kind, name, fault=None, empty=False, inner=None):
    """Compile; fault: [n, exception kind] makes the n-th expression fail.

    empty: the compiler is false in a boolean context.
    inner: (n, function) is called while the n-th expression is compiled."""
    cls = ENGINES[kind]
    if empty:
        cls = type("Empty" + cls.__name__, (cls,), {"__len__": lambda self: 0})
    comp = cls(Context({"values": {}}, {}))
    if fault:
        n, exc = fault
        real = comp.compile
        count = [0]

        def compile(expr):
            count[0] += 1
            if count[0] == n:
                if exc == "CompilerError":
                    raise comp.getCompilerError()("simulated %d" % n)
                raise make_exception(exc, "compile/%d" % n)
            return real(expr)
        comp.compile = compile
    if inner:
        n, fn = inner
        plain = comp.compile
        calls = [0]

        def compile(expr):
            calls[0] += 1
            if calls[0] == n:
                fn()
            return plain(expr)
        comp.compile = compile
    return run.compile_text(text, mode, kind, name, comp)


def attempt(task, groups):
    """The observable result of a failing compilation."""
    try:
        compile_one(task["text"], task["mode"], task["engine"], task["file"],
                    task.get("fault"))
    except BaseException as e:
        return [type(e).__name__, run.show(e)]
    return ["ok", ""]


MANY = """<r xmlns%(k)d="x"><b tal:define="v%(k)d k:%(k)d; aa k:1" title="t%(k)d"
 tal:attributes="class k:%(k)d; id%(k)d k:2" i18n:domain="d%(k)d" i18n:translate=""
 >w%(k)d <i i18n:name="n%(k)d" tal:content="structure k:%(k)d"/></b><e%(k)d
 metal:define-macro="m%(k)d"><b metal:define-slot="s%(k)d"/></e%(k)d>
<u metal:use-macro="m:%(k)d/m"><b metal:fill-slot="s%(k)d"/>%(bad)s</u></r>"""


def many(t):
    """Very many different templates, some of them wrong."""
    for k in range(t["times"]):
        bad = "</i>" if t["bad"] and k % t["bad"] == 0 else ""
        text = MANY % {"k": k, "bad": bad}
        if t["mode"] == "xml":
            text = text.replace("<r ", "<r%s " % tree.XMLNS, 1)
        try:
            run.compile_text(text, t["mode"], t["engine"], "many%d.pt" % k)
        except Exception:
            if not bad:
                raise


class C08(Check):
    id = "C08"
    technique = "deterministic simulation with fault injection: seeded interleavings " \
        "and histories of compilations with failures and aborts, compared with " \
        "each compilation alone"
    real = REAL + ["CPython threads, one running at a time"]
    stubs = ["expression compiler: compiles to itself, fails where the case says",
             "thread scheduler (decides every switch)", "expression engine when "
             "the results are rendered"]
    runs = {"quick": 9000, "thorough": 70000}
    rule = ("a run counts if compilations really overlapped (three or more switches) "
            "or at least one earlier one failed or was aborted; distinct by the "
            "switches, aborts and results")
    states_are = "distinct code lines where a compilation was preempted or aborted"

    def generate(self, rng):
        profiles = ["general", "struct", "metal", "nest", "nest", "i18n", "error"]
        groups = []
        for _ in range(rng.choice([1, 2, 2])):
            g = make_group(rng, profiles, size=rng.choice([4, 8, 14, 20]))
            if g is None:
                return None
            mr = make_render(rng, g, nfaults=rng.choice([0, 0, 1]))
            if mr is None:
                return None
            g["main"], g["render"] = mr
            groups.append(g)
        tasks = []
        for i, g in enumerate(groups):
            for f in sorted(g["templates"]):
                tasks.append({"do": "compile", "group": i, "file": f})
                if rng.random() < .05:
                    tasks[-1]["empty"] = True
                if rng.random() < .1:
                    # its expression compiler compiles another template
                    j = rng.randrange(len(groups))
                    tasks[-1]["inner"] = [
                        rng.choice([1, 1, 2, 3, 5]), j,
                        rng.choice(sorted(groups[j]["templates"]))]
        for _ in range(rng.choice([0, 1, 1, 2, 3])):
            i = rng.randrange(len(groups))
            g = groups[i]
            f = rng.choice(sorted(g["templates"]))
            text = Compiled(g["templates"]).text[f]
            t = {"do": "fail", "mode": g["templates"][f]["mode"], "file": f,
                 "engine": g["engine"], "text": text}
            if rng.random() < .35:
                t["fault"] = [rng.randint(1, 8),
                              rng.choice(EXC + BASE_EXC + ["CompilerError"] * 4)]
            else:
                t["text"] = damage(rng, text, t["mode"])
            tasks.append(t)
        if rng.random() < .3:
            tasks.append({"do": "render", "group": rng.randrange(len(groups))})
        rng.shuffle(tasks)
        case = {"groups": groups, "tasks": tasks, "opcodes": rng.random() < .25}
        if rng.random() < .008:
            tasks.insert(rng.randrange(len(tasks)), {
                "do": "many", "times": rng.choice([30, 150, 400]),
                "bad": rng.choice([0, 0, 1, 7]), "engine": groups[0]["engine"],
                "mode": rng.choice(["html", "xml"])})
            case["schedule"] = None
        elif rng.random() < .65 and len(tasks) > 1:
            case["schedule"] = make_schedule(rng)
        else:
            case["schedule"] = None
            for t in list(tasks):
                if rng.random() < .35:
                    k = int(math.exp(rng.uniform(math.log(5), math.log(2500))))
                    tasks.insert(rng.randrange(len(tasks) + 1), dict(t, abort=k))
        return case

    def judge(self, case, v):
        groups = case["groups"]
        tasks = case["tasks"]
        want = []
        for g in groups:
            want.append(procs.result(self.whole, g))
        for w in want:
            if w[0] == "compile":
                # a valid template refused, alone
                v.sig = "compile"
                return v.fail("refused", "a valid template was refused: %s" % w[1])
        want_fail = {}
        for n, t in enumerate(tasks):
            if t["do"] == "fail" and not t.get("abort"):
                want_fail[n] = procs.result(attempt, t, groups)
        want_render = {n: want[t["group"]][1] for n, t in enumerate(tasks)
                       if t["do"] == "render" and not t.get("abort")}

        compiled = {}
        within_ = {}

        def do(t):
            if t["do"] == "fail":
                return attempt(t, groups)
            if t["do"] == "many":
                v.counts["compilations in between"] += t["times"]
                v.nontrivial = True
                return many(t)
            g = groups[t["group"]]
            if t["do"] == "compile":
                inner = None
                if "inner" in t:
                    n, j, f = t["inner"]

                    def within():
                        within_[j, f] = do({"do": "compile", "group": j, "file": f})
                    inner = n, within
                c = Compiled(g["templates"])
                return compile_one(c.text[t["file"]],
                                   g["templates"][t["file"]]["mode"],
                                   g["engine"], t["file"], empty=t.get("empty"),
                                   inner=inner)
            programs = compile_group(g)
            return observe(run.render(programs, g["main"],
                                      g["templates"][g["main"]]["mode"],
                                      g["render"]))

        results = []
        if case["schedule"] is not None:
            s = sched.Scheduler([lambda t=t: do(t) for t in tasks],
                                case["schedule"], case["opcodes"])
            try:
                results = s.run()
            except sched.Stuck:
                v.counts["stuck outside the scheduler"] += 1
                return
            v.ticks += s.steps
            sig = s.switches
            v.faults["preemption"] += len(s.switches)
            v.counts["switches"] += len(s.switches)
            for _, w, _ in s.switches:
                v.states.add(w)
            v.nontrivial = len(s.switches) >= 3
            if s.deadlocked:
                return v.fail("deadlock", "all threads wait for each other")
        else:
            sig = []
            from .history import where
            for t in tasks:
                if t.get("abort"):
                    aborted, res = sched.with_abort(lambda: do(t), t["abort"],
                                                    case["opcodes"])
                    v.faults["abort at a line or instruction"] += aborted
                    v.ticks += t["abort"]
                    if aborted:
                        v.nontrivial = True
                        if isinstance(res, BaseException):
                            v.states.add("abort " + where(res))
                    sig.append([t["abort"], aborted])
                    results.append(None)
                    continue
                try:
                    results.append(do(t))
                except BaseException as e:
                    results.append(e)
                v.ticks += 1
        outcomes = []
        for n, (t, r) in enumerate(zip(tasks, results)):
            if t.get("abort") or t["do"] == "many" and r is None:
                continue
            if t["do"] == "fail":
                v.counts["failing compilations compared"] += 1
                if want_fail[n][0] != "ok":
                    v.faults["template or compiler fails"] += 1
                    v.nontrivial = v.nontrivial or case["schedule"] is None
                outcomes.append(r)
                if r != want_fail[n]:
                    return v.fail("error", "%s: %s, alone %s"
                                  % (t["file"], r, want_fail[n]))
                continue
            if isinstance(r, BaseException):
                return v.fail("failed", "%s %s failed: %s: %s"
                              % (t["do"], t.get("file"), type(r).__name__, r))
            if t["do"] == "compile":
                compiled[t["group"], t["file"]] = r
                continue
            d = difference(r, want_render[n])
            if d:
                return v.fail("rendering", "%s: %s" % d)
        # render what was compiled
        for i, g in enumerate(groups):
            try:
                programs = compile_group(g)
            except Exception as e:
                return v.fail("failed", "compiling again failed: %s: %s"
                              % (type(e).__name__, e))
            later = observe(self.show(g, programs))
            for f in g["templates"]:
                if (i, f) in compiled:
                    programs[f] = compiled[i, f]
            got = observe(self.show(g, programs))
            outcomes.append([got["outcome"], got["out"]])
            compared = [("program", got), ("later program", later)]
            if any(j == i for j, f in within_):
                for f in g["templates"]:
                    if (i, f) in within_:
                        programs[f] = within_[i, f]
                        v.counts["compiled within another compilation"] += 1
                compared.append(("inner program", observe(self.show(g, programs))))
            for w, x in compared:
                d = difference(x, want[i][1])
                if d:
                    return v.fail(w, "group %d: %s: %s" % (i, d[0], d[1]))
            v.counts["programs compared"] += len(g["templates"])
        v.sig = digest(sig, outcomes)
        v.sample = {"tasks": [t["do"] for t in tasks],
                    "threads": case["schedule"] is not None}

    def show(self, g, programs):
        return run.render(programs, g["main"], g["templates"][g["main"]]["mode"],
                          g["render"])

    def whole(self, g):
        try:
            programs = compile_group(g)
        except Exception as e:
            return ["compile", "%s: %s" % (type(e).__name__, e)]
        return ["ok", observe(self.show(g, programs))]

    def reductions(self, case):
        for i, t in enumerate(case["tasks"]):
            if t.get("times", 1) > 1:
                c = copy.deepcopy(case)
                c["tasks"][i]["times"] //= 2
                yield c
        if case["schedule"]:
            yield from schedule_reductions(case)
        yield from shrink.items(case, "tasks")
        for i, t in enumerate(case["tasks"]):
            if "inner" in t:
                c = copy.deepcopy(case)
                del c["tasks"][i]["inner"]
                yield c
        used = {t["group"] for t in case["tasks"] if "group" in t}
        used |= {t["inner"][1] for t in case["tasks"] if "inner" in t}
        for i in range(len(case["groups"])):
            if i not in used and len(case["groups"]) > 1:
                c = copy.deepcopy(case)
                del c["groups"][i]
                for t in c["tasks"]:
                    if "group" in t:
                        t["group"] -= t["group"] > i
                    if "inner" in t:
                        t["inner"][1] -= t["inner"][1] > i
                yield c
        for i, g in enumerate(case["groups"]):
            for small in shrink.templates(g):
                c = copy.deepcopy(case)
                c["groups"][i] = small
                yield c
