"""C13: macros that use each other recursively."""
from ..model import Compiled, Model, TooMuch
from ..gen import EXC
from ..tree import text
from .common import ModelCheck


class Graph:
    """Macros that use each other, directly, through slots and by extension."""

    def __init__(self, rng):
        self.rng = rng
        self.mode = rng.choice(["html", "html", "xml"])
        self.next = 0
        self.values = {}
        self.files = ["main.pt", "lib.pt"][:rng.choice([1, 2, 2])]
        n = rng.choice([1, 2, 2, 3, 4])
        self.macros = [(rng.choice(self.files), "m%d" % i) for i in range(n)]
        self.in_macro = True
        self.budget = rng.choice([1, 2, 3, 4])      # elements with two branches

    def id(self):
        self.next += 1
        return self.next

    def el(self, **kw):
        name = self.rng.choice(["b", "i", "div", "q"])
        return dict({"t": "el", "n": self.id(), "name": name, "kids": []}, **kw)

    def k(self, *specs):
        i = self.id()
        self.values[str(i)] = list(specs)
        return "k:%d" % i

    def use(self, depth):
        rng = self.rng
        i = self.id()
        targets = [rng.choice(self.macros) for _ in range(rng.choice([1, 1, 2, 3]))]
        specs = [["mac", f, m] for f, m in targets]
        if rng.random() < .05:
            specs.append(["badver"])
        self.values[str(i)] = specs
        el = self.el(use="m:%d/x" % i)
        if depth < 2 and rng.random() < .5:
            for s in rng.sample(["s1", "s2"], rng.choice([1, 1, 2])):
                f = self.el(fillslot=s)
                f["kids"] = self.body(depth + 1)
                if self.in_macro and rng.random() < .2:
                    f["defslot"] = rng.choice(["s1", "s2"])
                el["kids"].append(f)
        return el

    def maybe(self, el):
        """A condition that holds now and then, so that recursion may end."""
        rng = self.rng
        r = rng.random()
        if r < .35:
            n = rng.choice([1, 2, 3, 5, 8, 13, 30])
            el["cond"] = self.k(*([["b", 1]] * n + [["b", 0]] * rng.choice([1, n, 40])))
        if rng.random() < .3:
            el["onerror"] = ["", self.k(["s", "E%d" % self.id()])]
        return el

    def body(self, depth=0):
        rng = self.rng
        out = [text("t%d" % self.id())]
        r = rng.random()
        n = 1
        if self.budget > 0 and rng.random() < .4:
            self.budget -= 1
            n = 2
        for _ in range(n):
            r = rng.random()
            if r < .55:
                inner = self.use(depth)
            elif r < .8 and self.in_macro:
                inner = self.el(defslot=rng.choice(["s1", "s2"]))
                inner["kids"] = [text("d%d" % self.id())]
                if rng.random() < .3 and depth < 2:
                    inner["kids"].append(self.use(depth + 1))
            else:
                inner = self.el(content=["", self.k(["s", "c%d" % self.id()])])
            if rng.random() < .7:
                wrap = self.maybe(self.el())
                wrap["kids"] = [inner]
                out.append(wrap)
            else:
                out.append(inner)
        out.append(text("u%d" % self.id()))
        return out

    def build(self):
        rng = self.rng
        tpl = {f: {"mode": self.mode, "kids": [], "decl": False} for f in self.files}
        for f, m in self.macros:
            el = self.el(defmacro=m)
            if rng.random() < .15 and len(self.macros) > 1:
                i = self.id()
                f2, m2 = rng.choice(self.macros)
                self.values[str(i)] = [["mac", f2, m2]]
                el["extend"] = "m:%d/x" % i
                fill = self.el(fillslot=rng.choice(["s1", "s2"]))
                fill["kids"] = self.body(1)
                if rng.random() < .4:
                    fill["defslot"] = fill["fillslot"]
                el["kids"] = [fill]
            else:
                el["kids"] = self.body()
                self.maybe(el)
            holder = self.el(cond=self.k(["b", rng.random() < .2]))
            holder["kids"] = [el]
            tpl[f]["kids"].append(holder)
        self.in_macro = False
        top = self.el()
        for _ in range(rng.choice([1, 1, 2, 3])):
            w = self.maybe(self.el())
            w["kids"] = [self.use(0)]
            top["kids"].append(w)
        tpl["main.pt"]["kids"].append(top)
        if self.mode == "xml":
            for f in tpl:
                root = self.el()
                root["kids"] = tpl[f]["kids"]
                tpl[f]["kids"] = [root]
        return tpl


class C13(ModelCheck):
    id = "C13"
    technique = "deterministic simulation with fault injection: recursive macro " \
        "graphs under nesting limits, with failures, against a reference model"
    rule = ("a run counts if the nesting limit was reached, or macro uses were "
            "nested at least three deep; distinct by the sequence of engine calls, "
            "the outcome and the output")
    assumptions = ["Limits up to 40 are explored, the default of 100 only by "
                   "renderings that stay below it or reach it without branching."]

    def generate(self, rng):
        g = Graph(rng)
        tpl = g.build()
        limit = rng.choice([1, 2, 3, 4, 5, 6, 8, 10, 12, 20, 40, 100])
        render = {"values": g.values, "engine": rng.choice(["sim", "sim", "bundled"]),
                  "opts": {"stackLimit": limit}, "faults": []}
        if rng.random() < .08:
            render["opts"]["tal"] = 0
        case = {"templates": tpl, "main": "main.pt", "render": render, "named": True}
        c = Compiled(tpl)
        try:
            for _ in range(rng.choice([0, 0, 1, 1, 2, 3])):
                m = Model(c, render, budget=3000).run("main.pt")
                calls = [r for r, meta in zip(m.log, m.meta) if meta[3] > 0]
                if not calls:
                    break
                r = rng.choice(calls)
                render["faults"].append({"at": r[:3], "exc": rng.choice(EXC)})
            m = Model(c, render, budget=3000).run("main.pt")
        except (TooMuch, RecursionError):
            return None
        return case

    def compare(self, case, r, m, v):
        v.nontrivial = m.stats.get("limit") or m.maxdepth >= 3
        v.counts["deepest nesting %s" % (m.maxdepth if m.maxdepth < 10 else "10+")] += 1
        v.counts["limit reached"] += m.stats.get("limit", 0)
        v.sample = {"limit": case["render"]["opts"]["stackLimit"],
                    "deepest": m.maxdepth, "outcome": m.outcome,
                    "contained": len(m.contained)}
        if r.outcome[0] == "exc" and r.outcome[1] == "OTHER" and \
                m.outcome != r.outcome:
            v.fail("wrong error", "%s, expected %s" % (r.detail, m.outcome))
        if self.cmp_sequence(r, m, v, ("eval",), what="expansion"):
            self.cmp_output(r, m, v)
