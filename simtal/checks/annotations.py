"""C21: source annotations."""
import re

from .. import gen, run
from ..core import digest
from ..model import Model
from .common import ModelCheck, log_key, modes, refused, show_diff
from .rendering import describe, walk

MARK = re.compile(r"<!--\n={78}\n(.*?)\n={78}\n-->", re.S)
WORD = re.compile(r"w\d+x")     # "x": not to be confused with values
MARKED = re.compile(r"\b(w\d+)\b")


def static_words(templates):
    out = {}
    for f in sorted(templates):
        for k in nodes(templates[f]["kids"]):
            if k["t"] == "text":
                for w in WORD.findall(k["s"]):
                    out[w] = f
            else:
                for n, val in k.get("attrs", ()):
                    for w in WORD.findall(val or ""):
                        out[w] = f
    return out


def nodes(kids):
    for k in kids:
        yield k
        if k["t"] == "el":
            yield from nodes(k.get("kids", ()))


class C21(ModelCheck):
    id = "C21"
    technique = "deterministic simulation with fault injection: the same seeded " \
        "rendering and failures with annotations on and off"
    rule = ("a run counts if at least two annotations were written, or one after a "
            "contained failure; distinct by calls, outcome and annotated output")
    states_are = "distinct sequences of annotated locations"

    def generate(self, rng):
        more = {}
        if rng.random() < .2:
            # narrow lines: tags are wrapped, which takes the output column
            more = {"opts": {"wrap": rng.choice([8, 20, 30, 50])}, "attributes": .5}
        case = gen.make_case(rng, rng.choice(["metal", "metal", "metal", "error",
                                              "general", "i18n", "struct"]),
                             nfaults=rng.choice([0, 1, 1, 2, 3]),
                             want=rng.choice(["contained", "contained", None]),
                             prefer=lambda r, meta: meta[3] > 0, **more)
        if case is not None:
            n = 90000
            for f in sorted(case["templates"]):
                for el in walk(case["templates"][f]["kids"]):
                    if not el.get("ns") and not el.get("attrs") and \
                            "script" not in el and rng.random() < .7:
                        n += 1
                        el["attrs"] = [["data-f", "w%d" % n]]
                for k in nodes(case["templates"][f]["kids"]):
                    if k["t"] == "text":
                        k["s"] = MARKED.sub(r"\1x", k["s"])
                    else:
                        k["attrs"] = [[a, val and MARKED.sub(r"\1x", val)]
                                      for a, val in k.get("attrs", ())]
        return case

    def judge(self, case, v):
        c = self.prepare(case)
        render = case["render"]
        m = Model(c, render, named=case["named"]).run(case["main"])
        rs = []
        for on in (0, 1):
            try:
                programs = run.compile_all(c.text, modes(c), render["engine"],
                                           case["named"])
            except Exception as e:
                return refused(e, v)
            opts = dict(render["opts"], sourceAnnotations=on)
            rs.append(run.render(programs, case["main"], m.mode,
                                 dict(render, opts=opts)))
        off, on = rs
        self.measure(m, v)
        marks = MARK.findall(on.out)
        v.counts["annotations"] += len(marks)
        v.nontrivial = len(marks) >= 2 or (marks and m.contained)
        v.sig = digest(log_key(on.log), on.outcome, on.out)
        v.states.add(digest(marks))
        v.sample = dict(describe(m), annotations=marks[:6])
        if off.outcome == ["runaway"] or on.outcome == ["runaway"]:
            return
        if on.outcome != off.outcome:
            return v.fail("outcome", "%s with annotations (%s), %s without"
                          % (on.outcome, getattr(on, "detail", ""), off.outcome))
        if MARK.sub("", on.out) != off.out:
            return v.fail("output", show_diff(MARK.sub("", on.out), off.out))
        if log_key(on.log) != log_key(off.log):
            return v.fail("calls", "the engine was asked differently")
        if off.out.lstrip().startswith("<?xml") and \
                not on.out.lstrip().startswith("<?xml"):
            return v.fail("declaration", "annotation before the XML declaration")
        words = static_words(case["templates"])
        # what went through a translation belongs to the unit, wherever it is from
        translated = " ".join(str(r) for r in on.log if r[0] == "translate")
        parts = MARK.split(on.out)
        for name, text in zip(parts[1::2], parts[2::2]):
            name = name.split(" (line ")[0]
            for w in WORD.findall(text):
                if w in words and w not in translated:
                    if words[w] != name:
                        return v.fail("wrong template", "annotation %r before %s of %s"
                                      % (name, w, words[w]))
                    v.counts["annotations attributed"] += 1
