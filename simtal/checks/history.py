"""C06: the same compiled templates, rendered again and again."""
import copy
import math

from .. import gen, procs, run, sched, shrink
from ..core import Check, digest
from ..model import Compiled, TooMuch
from ..values import BASE_EXC, EXC, make_exception
from .common import REAL, STUBS, modes, plain, show_diff

POOL = ["<b>f1</b>", '<i title="t">g1</i>', "plain", "<b>bad", "<br>", "<b/>",
        "a<br/>b", "<b>f1</b> tail", "</b>", "<p>x<p>y", '<b class="c">k</b><i/>']


def vary(rng, values):
    """Other data of the same kinds."""
    out = {}
    for k in values:
        specs = copy.deepcopy(values[k])
        r = rng.random()
        if r < .35:
            n = rng.randrange(len(specs))
            specs = specs[n:] + specs[:n]
        elif r < .6:
            for s in specs:
                if s[0] == "b":
                    s[1] = int(not s[1])
                elif s[0] == "s":
                    s[1] = s[1] + "z"
                elif s[0] == "l":
                    s[1] = (s[1] + ["extra"])[rng.choice([0, 1]):]
                elif s[0] == "i":
                    s[1] += 1
        elif r < .7:
            for i, s in enumerate(specs):
                if s[0] in ("h", "x"):
                    specs[i] = ["x", rng.choice(POOL)]
        out[k] = specs
    return out


def freshen(render, k):
    """The same rendering with texts and markup not seen before."""
    values = {}
    for key, specs in render["values"].items():
        values[key] = []
        for s in specs:
            if s[0] in ("s", "x"):
                s = [s[0], s[1] + str(k)]
            elif s[0] == "h":
                s = ["h", s[1] + [{"t": "text", "s": str(k)}]]
            values[key].append(s)
    return dict(render, values=values)


def options(rng):
    o = {"wrap": rng.choice([0, 0, 20, 60, 1023]),
         "strictinsert": rng.choice([0, 1, 1, 1])}
    if rng.random() < .3:
        o["showtal"] = rng.choice([-1, 0, 1])
    if rng.random() < .1:
        o["tal"] = 0
    if rng.random() < .15:
        o["metal"] = 0
    if rng.random() < .15:
        o["sourceAnnotations"] = 1
    if rng.random() < .1:
        o["i18nInterpolate"] = 0
    if rng.random() < .15:
        o["stackLimit"] = rng.choice([1, 2, 3])
    return o


def make_group(rng, profiles, size=None, positions=(0, .3)):
    profile = rng.choice(profiles)
    pages = rng.choice([0, 1, 2]) if profile in ("metal", "nest") else rng.choice([0, 0, 1])
    case = gen.make_case(rng, profile, nfaults=0, size=size, pages=pages,
                         extend=rng.choice([.25, .5]), position=rng.choice(positions))
    if case is None:
        return None
    return {"templates": case["templates"], "main": case["main"],
            "values": case["render"]["values"], "engine": case["render"]["engine"]}


def make_render(rng, group, nfaults=None, base=True):
    """A rendering of one of the group's templates: (main, render) or None."""
    main = group["main"]
    pages = [f for f in sorted(group["templates"]) if f.startswith("page")]
    if pages and rng.random() < .6:
        main = rng.choice(pages)
    elif rng.random() < .15:
        main = rng.choice(sorted(group["templates"]))
    render = {"values": vary(rng, group["values"]), "engine": group["engine"],
              "opts": {}}
    if nfaults is None:
        nfaults = rng.choice([0, 0, 0, 1, 1, 2])
    c = Compiled(group["templates"])
    try:
        render = gen.plan_faults(rng, c, render, main, nfaults, None, None, base)
        from ..model import Model
        Model(c, render).run(main)
    except TooMuch:
        return None
    render["opts"] = options(rng)
    return main, render


class Limited(run.Out):
    def __init__(self, limit, exc):
        run.Out.__init__(self)
        self.limit, self.exc, self.n = limit, exc, 0

    def write(self, s):
        self.n += len(s)
        if self.n > self.limit:
            raise self.exc
        run.Out.write(self, s)


def compile_group(g):
    c = Compiled(g["templates"])
    return run.compile_all(c.text, modes(c), g["engine"], True)


def observe(r):
    return {"outcome": r.outcome, "out": r.out,
            "log": [plain(x) for x in r.log],
            "type": getattr(r, "exctype", None),
            "detail": getattr(r, "detail", "")}


def alone(group, main, render):
    """What a fresh copy of the templates renders, in a pristine process.

    None if the templates do not compile."""
    def fresh():
        try:
            programs = compile_group(group)
        except Exception:
            return None
        mode = group["templates"][main]["mode"]
        return observe(run.render(programs, main, mode, render))
    return procs.result(fresh)


def difference(got, want):
    if got["outcome"] != want["outcome"] or got["type"] != want["type"]:
        return "outcome", "%s %s, alone %s %s" % (got["outcome"], got["detail"],
                                                  want["outcome"], want["detail"])
    if got["out"] != want["out"]:
        return "output", show_diff(got["out"], want["out"])
    if got["log"] != want["log"]:
        i = next((i for i, (a, b) in enumerate(zip(got["log"], want["log"]))
                  if a != b), min(len(got["log"]), len(want["log"])))
        return "calls", "call %d: %s, alone %s" % (i, got["log"][i:i + 1],
                                                   want["log"][i:i + 1])
    return None


class C06(Check):
    id = "C06"
    technique = "deterministic simulation with fault injection: seeded histories of " \
        "renderings with failures and aborts, each compared with a fresh process"
    real = REAL
    stubs = STUBS
    runs = {"quick": 14000, "thorough": 120000}
    rule = ("a run counts if a rendering was compared that came after one which "
            "failed, was aborted, or used other data or options; distinct by the "
            "outcomes, outputs and calls of all compared renderings")
    states_are = ("distinct (kind of disturbance, code line where the abort or "
                  "failure hit) pairs")

    def generate(self, rng):
        profiles = ["general", "struct", "metal", "metal", "metal", "i18n", "error",
                    "scope"]
        groups = []
        for _ in range(rng.choice([1, 1, 1, 2])):
            g = make_group(rng, profiles)
            if g is None:
                return None
            groups.append(g)
        steps = []
        for _ in range(rng.choice([2, 3, 4, 5, 6])):
            i = rng.randrange(len(groups))
            mr = make_render(rng, groups[i])
            if mr is None:
                return None
            st = {"group": i, "main": mr[0], "render": mr[1]}
            r = rng.random()
            if r < .25:
                st["abort"] = int(math.exp(rng.uniform(math.log(5), math.log(2500))))
                st["opcodes"] = rng.random() < .3
            elif r < .35:
                st["stream"] = [rng.randrange(120), rng.choice(EXC + BASE_EXC)]
            elif r < .4:
                st["recompile"] = 1
            elif r < .403:
                # very many renderings
                st["times"] = rng.choice([30, 150, 400])
            elif r < .5:
                # in the middle of an engine call another one is rendered
                j = rng.randrange(len(groups))
                mr = make_render(rng, groups[j])
                if mr is None:
                    return None
                st["inner"] = {"at": rng.choice([1, 2, 3, 5, 8, 13, 21]),
                               "group": j, "main": mr[0], "render": mr[1]}
            steps.append(st)
        # the last one always counts
        for k in ("abort", "stream", "recompile", "times"):
            steps[-1].pop(k, None)
        return {"groups": groups, "steps": steps}

    def judge(self, case, v):
        groups = case["groups"]
        steps = case["steps"]
        want = []
        for st in steps:
            if "inner" in st:
                inner = st["inner"]
                inner["want"] = alone(groups[inner["group"]], inner["main"],
                                      inner["render"])
                if inner["want"] is None:
                    v.counts["compile failed"] += 1
                    return
            if any(k in st for k in ("abort", "stream", "recompile", "times")):
                want.append(None)
            else:
                want.append(alone(groups[st["group"]], st["main"], st["render"]))
                if want[-1] is None:
                    v.counts["compile failed"] += 1
                    return
        try:
            programs = [compile_group(g) for g in groups]
        except Exception:
            v.counts["compile failed"] += 1
            return
        sigs = []
        disturbed = 0
        for n, st in enumerate(steps):
            g = groups[st["group"]]
            mode = g["templates"][st["main"]]["mode"]
            if st.get("recompile"):
                # compiled copies made later must not disturb either
                compile_group(g)
                v.counts["recompiled"] += 1
                continue
            if st.get("times"):
                for k in range(st["times"]):
                    r = run.render(programs[st["group"]], st["main"], mode,
                                   freshen(st["render"], k))
                    v.ticks += len(r.log)
                v.counts["renderings in between"] += st["times"]
                disturbed += 1
                continue
            stream = None
            if st.get("stream"):
                limit, kind = st["stream"]
                stream = Limited(limit, make_exception(kind, "stream"))
            within = []
            point = None
            if "inner" in st:
                inner = st["inner"]
                left = [inner["at"]]

                def point(what):
                    left[0] -= 1
                    if left[0] == 0:
                        within.append(observe(run.render(
                            programs[inner["group"]], inner["main"],
                            groups[inner["group"]]["templates"][inner["main"]]["mode"],
                            inner["render"])))
            it, ctx, stream = run.start(programs[st["group"]], st["main"], mode,
                                        st["render"], stream, point=point)
            if st.get("abort"):
                aborted, res = sched.with_abort(
                    lambda: run.finish(it, ctx, stream), st["abort"],
                    st.get("opcodes"))
                v.faults["abort at a line or instruction"] += aborted
                v.ticks += min(st["abort"], 2500)
                disturbed += aborted
                if aborted:
                    v.states.add("abort %s" % where(getattr(res, "exc", res)))
                continue
            r = run.finish(it, ctx, stream)
            v.ticks += len(r.log)
            for at in r.fired:
                v.faults["%s fails" % at[0]] += 1
            if st.get("stream"):
                v.faults["stream fails"] += r.exc is stream.exc
                disturbed += 1
                continue
            got = observe(r)
            sigs.append([got["outcome"], got["out"], len(got["log"])])
            if disturbed or n:
                v.nontrivial = True
                v.counts["renderings compared after others"] += 1
            if r.outcome[0] == "exc":
                v.states.add("failure %s" % where(r.exc))
                disturbed += 1
            if within:
                v.nontrivial = True
                v.counts["renderings within another"] += 1
                d = difference(within[0], inner["want"])
                if d:
                    v.fail(d[0], "rendering within rendering %d: %s" % (n + 1, d[1]))
                    break
            d = difference(got, want[n])
            if d:
                v.fail(d[0], "rendering %d of %d: %s" % (n + 1, len(steps), d[1]))
                break
        v.sig = digest(sigs)
        v.counts["renderings"] += len(steps)
        v.sample = {"renderings": len(steps), "outcomes": [s[0] for s in sigs]}

    def reductions(self, case):
        yield from shrink.items(case, "steps")
        for i, st in enumerate(case["steps"]):
            if "inner" in st:
                c = copy.deepcopy(case)
                del c["steps"][i]["inner"]
                yield c
            if st.get("times", 1) > 1:
                c = copy.deepcopy(case)
                c["steps"][i]["times"] //= 2
                yield c

            def get(c, i=i):
                return c["steps"][i]["render"]
            yield from shrink.faults(case, get)
            for k in sorted(st["render"]["opts"]):
                c = copy.deepcopy(case)
                del c["steps"][i]["render"]["opts"][k]
                yield c
        used = {st["group"] for st in case["steps"]}
        used |= {st["inner"]["group"] for st in case["steps"] if "inner" in st}
        for i in range(len(case["groups"])):
            if i not in used and len(case["groups"]) > 1:
                c = copy.deepcopy(case)
                del c["groups"][i]
                for st in c["steps"]:
                    st["group"] -= st["group"] > i
                    if "inner" in st:
                        st["inner"]["group"] -= st["inner"]["group"] > i
                yield c
        for i, g in enumerate(case["groups"]):
            for small in shrink.templates(g):
                c = copy.deepcopy(case)
                c["groups"][i] = small
                yield c
        for i, st in enumerate(case["steps"]):
            for key in sorted(st["render"]["values"]):
                c = copy.deepcopy(case)
                del c["steps"][i]["render"]["values"][key]
                yield c


def where(exc):
    """The innermost line of the package in a traceback."""
    from .. import boot
    tb = getattr(exc, "__traceback__", None)
    at = "?"
    while tb is not None:
        f = tb.tb_frame.f_code.co_filename
        if f.startswith(boot.PKG):
            at = "%s:%d" % (f[len(boot.PKG):], tb.tb_lineno)
        tb = tb.tb_next
    return at
