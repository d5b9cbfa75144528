"""C15: message extraction over many templates."""
import copy
import warnings

from .. import boot, gen, procs, run, sched, shrink
from ..core import Check, digest
from ..model import Compiled, Failure, Model, TooMuch, norm
from ..simfs import FS
from ..tree import text
from ..values import BASE_EXC, EXC, make_exception
from .compiling import damage
from .files import make_exc
from .rendering import walk

from zope.tal.talgettext import POEngine, POTALInterpreter  # noqa: E402

DYN = "${DYNAMIC_CONTENT}"


class POModel(Model):
    """What the extractor must find in one template."""

    def __init__(self, compiled, name):
        Model.__init__(self, compiled, {"values": {}, "opts": {"metal": 0}})
        self.found = []

    def eval(self, expr, el):
        self.call("eval", expr, el)
        return DYN

    def sequence(self, expr, el):
        self.call("eval", expr, el)
        return [0]

    def data(self, expr, el):
        self.call("eval", expr, el)
        return None

    def code(self, el):
        if "raise" in el["source"] or "lang" in el:
            raise Failure("OTHER", el)
        return ""

    def trans(self, msgid, default, mapping, el):
        default = norm(default)
        if default == msgid:
            default = None
        self.found.append((self.dom, msgid, default, tuple(self.c.pos[el["n"]])))
        return "x"


SHARED = ["shared-1", "shared-2", "shared ${k1}", "common text"]


class C15(Check):
    id = "C15"
    technique = "deterministic simulation with fault injection: seeded sequences of " \
        "templates, some of which cannot be read, parsed or interpreted, against " \
        "a reference model"
    real = ["zope.tal.talgettext (POEngine, POTALInterpreter)",
            "zope.tal parsers, generator, interpreter, dummyengine"]
    stubs = ["files (in memory)", "output stream"]
    runs = {"quick": 30000, "thorough": 240000}
    rule = ("a run counts if messages of at least two templates were extracted and "
            "one message id occurred twice or a template failed; distinct by the "
            "resulting catalog")
    states_are = "distinct (how a template ended, messages it gave up to 5) pairs"

    def generate(self, rng):
        files = []
        count = rng.choice([1, 2, 3, 3, 4, 5] * 8 + [12, 40])
        for n in range(count):
            g = gen.Gen(rng, rng.choice(["i18n", "i18n", "i18n", "general", "metal"]),
                        size=rng.choice([4, 8, 14]), trans=.45, iattrs=.3,
                        idomain=.15, message=0, script=rng.choice([0, .05]))
            g.build()
            for f in sorted(g.templates):
                tpl = g.templates[f]
                for el in walk(tpl["kids"]):
                    if "script" in el:
                        el["source"] = rng.choice(
                            ["pass\n", "x = 1\n", "raise ValueError('sim')\n",
                             "raise KeyError\n"])
                    if "itrans" in el and "content" not in el and rng.random() < .3:
                        if el["itrans"] and rng.random() < .7:
                            el["itrans"] = rng.choice(SHARED)
                        elif not el.get("void"):
                            el["kids"] = [text(rng.choice(SHARED))]
                    for a in el.get("iattrs", ()):
                        if a[1] and rng.random() < .5:
                            a[1] = rng.choice(SHARED[:2])
                one = {"name": "t%d-%s" % (n, f), "tpl": tpl}
                r = rng.random()
                kind = rng.choice(EXC + ["OSError"] * 5)
                if r < .06:
                    one["plan"] = rng.choice([{"open": 1, "exc": kind},
                                              {"read": 1, "exc": kind},
                                              {"read": 2, "exc": kind, "sizes": [40]}])
                elif r < .16:
                    c = Compiled({"t": tpl})
                    one["text"] = damage(rng, c.text["t"], tpl["mode"])
                elif r < .22:
                    one["abort"] = rng.randrange(5, 900)
                elif r < .28:
                    one["stream"] = [rng.randrange(60), rng.choice(EXC + BASE_EXC)]
                files.append(one)
        files = files[:max(6, count)]
        if rng.random() < .1:
            files.append(copy.deepcopy(rng.choice(files)))
        order = list(range(len(files)))
        rng.shuffle(order)
        try:
            for one in files:
                POModel(Compiled({one["name"]: one["tpl"]}), one["name"]) \
                    .run(one["name"])
        except TooMuch:
            return None
        case = {"files": files, "order": order}
        if rng.random() < .15:
            # files that also go into another catalog, before those of this one
            case["beside"] = [rng.randrange(len(files)) for _ in range(3)]
        return case

    def extract(self, files, beside=()):
        """Run the extractor over the files; a plain catalog comes back."""
        engine = POEngine()
        ends = []
        steps = 0
        other = POEngine()
        others = [files[n] for n in beside if n < len(files)]
        with warnings.catch_warnings(record=True) as caught:
            warnings.simplefilter("always")
            for one in files:
                if others:
                    before = len(caught)
                    self.aside(other, others.pop())
                    del caught[before:]
                name = one["name"]
                src = one.get("text")
                if src is None:
                    src = Compiled({name: one["tpl"]}).text[name]
                fs = FS({name: src.encode("utf-8")}, {name: [one.get("plan", {})]},
                        make_exc)
                stream = run.Out()
                if "stream" in one:
                    from .history import Limited
                    stream = Limited(one["stream"][0],
                                     make_exception(one["stream"][1], "stream"))

                def work():
                    engine.file = name
                    mode = one["tpl"]["mode"]
                    p = run.TALParser() if mode == "xml" else run.HTMLTALParser()
                    with boot.simulated_fs(fs):
                        p.parseFile(name)
                    program, macros = p.getCode()
                    POTALInterpreter(program, macros, engine, stream=stream,
                                     metal=False)()
                if "abort" in one:
                    aborted, res = sched.with_abort(work, one["abort"])
                    steps += one["abort"]
                    ends.append("aborted" if aborted else "ok")
                    continue
                try:
                    work()
                    ends.append("ok")
                except BaseException as e:
                    ends.append("%s: %s" % (type(e).__name__, run.show(e)))
                steps += fs.ticks + 1
        del other
        catalog = []
        for dom in sorted(engine.catalog, key=str):
            msgs = engine.catalog[dom]
            for m in sorted(msgs, key=str):
                catalog.append([dom, str(m), None if m.default is None
                                else str(m.default),
                                [[f, list(p) if p else None] for f, p in msgs[m]]])
        return {"catalog": catalog, "ends": ends, "warnings": len(caught),
                "steps": steps}

    def aside(self, engine, one):
        engine.file = "beside-" + one["name"]
        src = one.get("text")
        if src is None:
            src = Compiled({one["name"]: one["tpl"]}).text[one["name"]]
        try:
            p = run.TALParser() if one["tpl"]["mode"] == "xml" else run.HTMLTALParser()
            p.parseString(src)
            program, macros = p.getCode()
            POTALInterpreter(program, macros, engine, stream=run.Out(), metal=False)()
        except BaseException:
            pass                      # this catalog is nobody's concern

    def judge(self, case, v):
        files = case["files"]
        got = procs.result(self.extract, files, case.get("beside", ()))
        v.counts["extractions beside another one"] += "beside" in case
        v.ticks = got["steps"]
        v.sig = digest(got["catalog"])
        expected = {}                 # (domain, msgid) -> [(file, pos, default)]
        unknown = set()               # files whose messages are not predicted
        partial = set()               # files that may stop anywhere
        count = 0
        for one, end in zip(files, got["ends"]):
            name = one["name"]
            m = POModel(Compiled({name: one["tpl"]}), name).run(name)
            v.states.add("%s %d" % (end.split(":")[0], min(5, len(m.found))))
            v.counts["messages expected"] += len(m.found)
            if end != "ok":
                v.faults["template ends with %s" % end.split(":")[0]] += 1
            if "text" in one:
                unknown.add(name)
                continue
            if "plan" in one and end != "ok":
                continue              # cannot be read: nothing of it
            if "abort" in one or "stream" in one:
                partial.add(name)
            elif (end == "ok") != (m.outcome == ["ok"]):
                return v.fail("ending", "%s: %s, expected %s" % (name, end, m.outcome))
            count += bool(m.found)
            for dom, msgid, default, pos in m.found:
                expected.setdefault((dom, msgid), []).append((name, pos, default))
        v.nontrivial = count >= 2 and (
            any(len(x) > 1 for x in expected.values())
            or any(e != "ok" for e in got["ends"]))
        v.sample = {"templates": len(files), "endings": got["ends"],
                    "messages": len(got["catalog"]), "warnings": got["warnings"]}
        seen = {}
        for dom, msgid, default, refs in got["catalog"]:
            seen[dom, msgid] = (default, [(f, tuple(p) if p else None)
                                          for f, p in refs])
        # everything expected is there, once per occurrence
        for key in sorted(expected, key=str):
            occ = expected[key]
            default, refs = seen.get(key, (None, []))
            for f in sorted({o[0] for o in occ}):
                want = sorted(o[1] for o in occ if o[0] == f)
                have = sorted((p for g, p in refs if g == f), key=str)
                if f in unknown:
                    continue
                if f in partial:
                    rest = list(want)
                    for p in have:
                        if p in rest:
                            rest.remove(p)
                        else:
                            return v.fail("reference", "%s in %s at %s, expected %s"
                                          % (key, f, have, want))
                    continue
                if have != sorted(want, key=str):
                    return v.fail("reference" if key in seen else "message lost",
                                  "%s in %s: found %s, expected %s"
                                  % (key, f, have, want))
                v.counts["references compared"] += len(want)
        for key in sorted(seen, key=str):
            default, refs = seen[key]
            if key not in expected and not unknown:
                return v.fail("invented", "%s at %s" % (key, refs))
            for f, p in refs:
                if f in unknown:
                    continue
                if (f, p) not in [(o[0], o[1]) for o in expected.get(key, ())]:
                    return v.fail("invented", "%s at %s %s" % (key, f, p))
            if not ({f for f, p in refs} & unknown or
                    {o[0] for o in expected.get(key, ())} & partial):
                if default != expected[key][0][2]:
                    return v.fail("default", "%s: default %r, expected %r"
                                  % (key, default, expected[key][0][2]))
                v.counts["defaults compared"] += 1
        if not unknown and not partial:
            conflicts = sum(o[2] != occ[0][2] for occ in expected.values()
                            for o in occ)
            v.counts["conflicting defaults"] += conflicts
            if bool(conflicts) != bool(got["warnings"]):
                return v.fail("warnings", "%d warnings for %d conflicting defaults"
                              % (got["warnings"], conflicts))
        # another order
        other = procs.result(self.extract, [files[i] for i in case["order"]])
        a, b = (set_of(x["catalog"], files) for x in (got, other))
        if a != b:
            diff = sorted(a.symmetric_difference(b), key=str)[0]
            return v.fail("order", "%s depends on the order of the templates"
                          % (diff,))

    def reductions(self, case):
        if "beside" in case:
            c = copy.deepcopy(case)
            del c["beside"]
            yield c
        for c in shrink.items(case, "files"):
            c["order"] = list(reversed(range(len(c["files"]))))
            yield c
        for i, one in enumerate(case["files"]):
            small = {"templates": {one["name"]: one["tpl"]}, "main": one["name"]}
            for s in shrink.templates(small):
                c = copy.deepcopy(case)
                c["files"][i]["tpl"] = s["templates"][one["name"]]
                yield c


def set_of(catalog, files):
    aborted = {one["name"] for one in files if "abort" in one}
    out = set()
    for dom, msgid, default, refs in catalog:
        for n, (f, p) in enumerate(sorted(refs, key=str)):
            if f not in aborted:
                same = sorted(refs, key=str)[:n].count([f, p])
                out.add((dom, msgid, f, tuple(p) if p else None, same))
    return out
