"""C01-C05, C11, C12, C16, C18, C19: one rendering against the model."""
import json

from .. import gen, run, tree, values
from ..engine import Budget
from ..model import Compiled, Model
from .common import ModelCheck, common_calls, modes, plain, refused, show_diff


NONAME = "location without a file name"


def describe(m):
    return {"engine_calls": len(m.log), "failures_injected": [list(a) for a in m.fired],
            "contained": [[c[0], "element %d" % c[1]] for c in m.contained],
            "outcome": m.outcome}


class C01(ModelCheck):
    id = "C01"
    rule = ("a run counts if at least one injected or inherent failure was really "
            "contained by an on-error element; distinct by the sequence of engine "
            "calls, the outcome and the output")

    def generate(self, rng):
        if rng.random() < .1:
            # narrow lines: tags are wrapped, which takes the output column
            return gen.make_case(rng, rng.choice(["error", "metal", "struct"]),
                                 want="contained", script=0, trans=0,
                                 attributes=.5,
                                 opts={"wrap": rng.choice([8, 20, 30, 50])},
                                 prefer=lambda r, meta: meta[3] > 0)
        return gen.make_case(rng, rng.choice(["error", "error", "general", "scope",
                                              "i18n", "metal", "struct"]),
                             want="contained", base="contained",
                             prefer=lambda r, meta: meta[3] > 0)

    def compare(self, case, r, m, v):
        self.cmp_output(r, m, v)
        v.nontrivial = bool(m.contained)
        v.sample = describe(m)


class C02(ModelCheck):
    id = "C02"
    rule = ("a run counts if variables were looked up after a failure was contained "
            "with at least one scope open inside the failed element, or if at least "
            "five lookups resolved a variable; distinct as in C01")

    def generate(self, rng):
        if rng.random() < .04:
            # macro expansion only
            return gen.make_case(rng, rng.choice(["scope", "metal"]), nfaults=0,
                                 trans=0, opts={"tal": 0}, define=.45)
        return gen.make_case(rng, rng.choice(["scope", "scope", "scope", "metal",
                                              "general"]),
                             want=rng.choice(["contained", "contained", None]),
                             base="contained",
                             prefer=lambda r, meta: meta[3] > 0 or r[0] == "errinfo",
                             onerror=rng.choice([.15, .3]), define=.45, var=.7)

    def compare(self, case, r, m, v):
        n = 0
        for a, b in common_calls(r.log, m.log):
            if a[0] != "eval" or b[3] is None or b[3][0] == "macro":
                continue
            if a[1] in self.in_units(case):
                continue
            n += 1
            if plain(a[3]) != plain(b[3]):
                v.fail("lookup", "expression %s (evaluation %d): name %s resolved to "
                       "%r, expected %r" % (a[1], a[2], b[3][0], a[3], b[3]))
                break
        v.counts["variable lookups compared"] += n
        if r.problems:
            v.fail("scopes", r.problems[0])
        if r.outcome == ["ok"] and r.depth != 0:
            v.fail("scopes", "%d scopes left open at the end" % r.depth)
        v.nontrivial = n >= 5 or (n and any(c[2][0] for c in m.contained)) or \
            not m.tal
        v.sample = dict(describe(m), lookups=n)

    def in_units(self, case):
        return ()


class C03(ModelCheck):
    id = "C03"
    rule = ("a run counts if a failure was contained by an on-error element while "
            "macro uses begun inside that element were in progress; distinct as "
            "in C01")

    def generate(self, rng):
        return gen.make_case(rng, "metal", want="contained", base="contained",
                             libs=rng.choice([1, 2, 3]),
                             size=rng.choice([16, 24, 32]),
                             onerror=rng.choice([.2, .35]), use=.35, defslot=.35,
                             opts={"stackLimit": rng.choice([100, 100, 5, 4, 3])},
                             prefer=lambda r, meta: meta[3] > 0 and meta[1] > 0)

    def compare(self, case, r, m, v):
        v.nontrivial = any(c[2][1] > 0 or c[2][1] < 0 for c in m.contained)
        v.sample = describe(m)
        self.cmp_sequence(r, m, v, ("eval",), what="evaluations") \
            and self.cmp_output(r, m, v)


class C04(ModelCheck):
    id = "C04"
    rule = ("a run counts if a failure was contained and at least one translation "
            "request was made after it; distinct as in C01")

    def generate(self, rng):
        return gen.make_case(rng, rng.choice(["i18n", "i18n", "i18n", "general"]),
                             want="contained", base="contained",
                             onerror=rng.choice([.2, .35]),
                             trans=.4, iname=rng.choice([.4, .7]),
                             prefer=lambda r, meta: meta[3] > 0 and (
                                 meta[2] > 0 or r[0] == "translate"))

    def compare(self, case, r, m, v):
        self.cmp_sequence(r, m, v, ("translate",), extra=True, what="requests")
        self.cmp_output(r, m, v)
        after = False
        n = 0
        for rec in m.log:
            after = after or rec[0] == "errinfo"
            n += after and rec[0] == "translate"
        v.counts["requests after a contained failure"] += n
        v.nontrivial = n > 0
        v.sample = dict(describe(m), requests_after=n)


class C05(ModelCheck):
    id = "C05"
    rule = ("a run counts if at least three engine calls were compared and either "
            "two files took part or a failure was contained or escaped; distinct "
            "as in C01")

    def generate(self, rng):
        named = rng.choice([True] * 5 + [False] + [
            ["lib0.pt", "lib1.pt"], ["main.pt", "lib0.pt"]])
        over = {}
        if rng.random() < .04:
            over = {"trans": 0, "opts": {"tal": 0}}
        return gen.make_case(rng, rng.choice(["metal", "metal", "general", "i18n",
                                              "struct", "error"]),
                             want=rng.choice([None, "contained", "escape"]), **over,
                             named=named, dummy=.3,
                             position=.4 if named is True else 0,
                             prefer=lambda r, meta: meta[1] > 0 or r[0] != "eval")

    def compare(self, case, r, m, v):
        n = 0
        files = set()
        for a, b in common_calls(r.log, m.log):
            if a[0] == "errinfo":
                n += 1
                if plain(a[3]) != plain(b[3]):
                    v.fail(NONAME if a[1] in m.vague else "error info", "failure %s: position %s, expected %s"
                           % (a[1], a[3], b[3]))
                continue
            n += 1
            files.add(b[4])
            if plain(a[5:]) != plain(b[5:]) or b[4] not in ("?", a[4]):
                v.fail(NONAME if b[4] == "?" else "location", "%s %s (%d): announced %s, expected %s"
                       % (a[0], a[1], a[2], a[4:], b[4:]))
                break
            if a[0] == "eval" and b[3] and b[3][0] == "position" and \
                    plain(a[3]) != plain(b[3]):
                v.fail("position expression", "%s (%d): got %s, expected %s"
                       % (a[1], a[2], a[3], b[3]))
                break
        if r.outcome == m.outcome and m.outcome[0] == "exc":
            p = self.where(m)
            files.add(p[0])
            v.counts["escaped failures located"] += 1
            if r.pos != p[1:] or p[0] not in ("?", r.file):
                v.fail(NONAME if m.outcome[1] in m.vague else
                       "location after failure", "%s: last announced %s, expected %s"
                       % (m.outcome[1], (r.file,) + r.pos, p))
        v.counts["locations compared"] += n
        v.nontrivial = n >= 3 and (len(files) > 1 or m.contained
                                   or m.outcome[0] == "exc")
        v.sample = dict(describe(m), locations=n, files=len(files))

    def where(self, m):
        p = m.c.pos[m.fail_el["n"]]
        return (m.file_of(m.fail_el), p[0], p[1])


class C11(ModelCheck):
    id = "C11"
    rule = ("a run counts if at least five expressions were evaluated and a "
            "condition was false, a loop iterated, or a failure was injected; "
            "distinct as in C01")

    def generate(self, rng):
        return gen.make_case(rng, rng.choice(["general", "tal", "error", "scope",
                                              "metal", "struct", "i18n"]),
                             nfaults=rng.choice([0, 0, 1, 1, 2, 3]))

    def compare(self, case, r, m, v):
        self.cmp_sequence(r, m, v, ("eval", "next", "code"), what="evaluations")
        for rec in r.log:
            if rec[0] == "next" and rec[3] not in (None, 0, 1):
                v.fail("advance", rec)
        n = sum(rec[0] in ("eval", "next", "code") for rec in m.log)
        v.counts["evaluations compared"] += n
        v.nontrivial = n >= 5 and (m.stats.get("cond false") or
                                   m.stats.get("iteration") or m.fired)
        v.sample = describe(m)


class C12(ModelCheck):
    id = "C12"
    rule = ("a run counts if an injected failure escaped, or no failure was injected "
            "and the rendering had to succeed; distinct as in C01")

    def generate(self, rng):
        want = rng.choice(["escape", "escape", "escape", None])
        over = {}
        if rng.random() < .03:
            over = {"opts": {"debug": 1}}
        elif rng.random() < .03:
            over = {"trans": 0, "opts": {"tal": 0}}
        return gen.make_case(rng, rng.choice(["general", "tal", "error", "i18n",
                                              "metal", "struct", "scope"]),
                             nfaults=rng.choice([0, 1, 1, 1, 2, 3]),
                             want=want, base=True, **over)

    def compare(self, case, r, m, v):
        if m.outcome == ["ok"]:
            v.nontrivial = not m.fired
            v.sample = describe(m)
            if r.outcome[0] == "exc":
                v.fail("spurious failure", "rendering failed with %s (%s)"
                       % (r.outcome, r.detail))
            return
        tag = m.outcome[1]
        v.sample = describe(m)
        if tag in ("METAL", "OTHER"):
            v.counts["own failures"] += 1
            if r.outcome[0] == "exc" and r.outcome[1] not in (tag,):
                v.fail("exception", "got %s, expected %s" % (r.outcome, tag))
            return
        v.nontrivial = True
        if r.outcome != m.outcome:
            if tag not in [t for t, e in r.raised]:
                v.counts["other path taken"] += 1      # decided by C11
                return
            v.fail("exception", "the injected failure %s reached the caller as %s (%s)"
                   % (tag, r.outcome, getattr(r, "detail", "no exception")))
            return
        # identity is decided by tag_of; nothing may be evaluated afterwards
        last = r.log[-1] if r.log else None
        at = m.fired[-1]
        if last is None or tuple(last[:3]) != tuple(at):
            v.fail("evaluated later", "after %s: %s" % (at, last))
        faults = [f for f in case["render"]["faults"] if tuple(f["at"]) != tuple(at)]
        without = Model(m.c, dict(case["render"], faults=faults),
                        named=case["named"]).run(case["main"])
        if m.tal and not without.out.startswith(r.out):
            v.fail("prefix", show_diff(r.out, without.out))
        v.counts["escaped"] += 1


class C18(ModelCheck):
    id = "C18"
    rule = ("a run counts if at least two translation requests were made; distinct "
            "as in C01")

    def generate(self, rng):
        return gen.make_case(rng, rng.choice(["i18n", "i18n", "i18n", "general",
                                              "metal"]),
                             nfaults=rng.choice([0, 0, 1, 2]), trans=.4,
                             message=.25, iattrs=.25)

    def compare(self, case, r, m, v):
        if self.cmp_sequence(r, m, v, ("translate",), extra=True, what="requests"):
            self.cmp_output(r, m, v)
        n = sum(rec[0] == "translate" for rec in m.log)
        v.counts["requests compared"] += n
        v.nontrivial = n >= 2
        v.sample = dict(describe(m), requests=n)


class C19(ModelCheck):
    id = "C19"
    rule = ("a run counts if at least two macros were looked up, or one was refused; "
            "distinct as in C01")

    def generate(self, rng):
        over = {}
        if rng.random() < .1:
            # macro expansion only
            over = {"trans": 0, "opts": {"tal": 0}}
        elif rng.random() < .2:
            # macros in files, looked up by the bundled engine
            over = {"engine": "bundled"}
        files = "engine" in over
        case = gen.make_case(rng, "metal", libs=rng.choice([1, 2, 2, 3]),
                             size=rng.choice([16, 24, 32]),
                             nfaults=rng.choice([0, 0, 0, 1, 2]),
                             use=.35, defslot=.4, rebind=rng.choice([.25, .8]),
                             badmacro=rng.choice([.03, .2]), **over)
        if case is not None and files:
            case["external"] = True
            for f in case["render"]["faults"]:
                if rng.random() < .7 and not f["exc"].endswith("*"):
                    f["how"] = rng.choice([{"open": 1}, {"read": 1}])
        return case

    def compare(self, case, r, m, v):
        a = [plain(x[:4]) for x in r.log if x[0] == "eval" and x[3]
             and x[3][0] == "macro"]
        b = [plain(x[:4]) for x in m.log if x[0] == "eval" and x[3]
             and x[3][0] == "macro"]
        n = len(b)
        if a != b:
            i = next((i for i in range(min(len(a), len(b))) if a[i] != b[i]),
                     min(len(a), len(b)))
            v.fail("lookups", "macro lookup %d: got %s, expected %s"
                   % (i, a[i:i + 1], b[i:i + 1]))
        else:
            self.cmp_output(r, m, v)
        v.counts["lookups compared"] += n
        v.nontrivial = n >= 2 or m.stats.get("macro refused")
        v.sample = dict(describe(m), lookups=n)


def squeeze(s):
    return "".join(s.split()).lower()


class C16(ModelCheck):
    id = "C16"
    rule = ("a run counts if at least one value was inserted as structure; distinct "
            "as in C01")

    def generate(self, rng):
        case = gen.make_case(rng, "struct", nfaults=rng.choice([0, 0, 1, 2]),
                             opts={"strictinsert": rng.choice([1, 1, 1, 0])})
        if case is not None and rng.random() < .35:
            self.damage(rng, case)
        return case

    def damage(self, rng, case):
        """Damage one inserted fragment at one place."""
        vals = case["render"]["values"]
        mode = case["templates"][case["main"]]["mode"]
        at = [(k, i) for k in sorted(vals, key=int)
              for i, s in enumerate(vals[k]) if s[0] == "h"]
        if not at:
            return
        k, i = rng.choice(at)
        s = tree.fragment_text(vals[k][i][1], mode)
        p = rng.randrange(len(s) + 1)
        how = rng.choice(["cut", "cut", "drop", "insert", "swap", "double"])
        if how == "cut":
            s2 = s[:p]
        elif how == "drop":
            s2 = s[:p] + s[p + rng.choice([1, 2, 5]):]
        elif how == "insert":
            s2 = s[:p] + rng.choice(["<", ">", "</b>", "&", '"', "<b", "<!--",
                                     "<br/>", "<i>", "</i>", "<?", "<![CDATA["]) + s[p:]
        elif how == "swap":
            q = rng.randrange(len(s) + 1)
            p, q = min(p, q), max(p, q)
            s2 = s[:p] + s[q:] + s[p:q]
        else:
            q = rng.randrange(len(s) + 1)
            p, q = min(p, q), max(p, q)
            s2 = s[:q] + s[p:q] + s[q:]
        case["damaged"] = [k, i, s2, how]

    def judge(self, case, v):
        # damage must not decide about the answer to a message around it
        values.PLAIN = "damaged" in case
        if "damaged" not in case:
            return ModelCheck.judge(self, case, v)
        k, i, s2, how = case["damaged"]
        render = json.loads(json.dumps(case["render"]))
        c = self.prepare(case)
        mark = "\x01damaged\x02"
        # what the rendering is if the markup is inserted (marked), and if
        # it is refused
        render["values"][k][i] = ["s", mark]
        accept = Model(c, render, named=case["named"]).run(case["main"])
        render["values"][k][i] = ["x", mark]
        refuse = Model(c, render, named=case["named"]).run(case["main"])
        # an expression used as text gets the markup escaped; leave those out
        if mark not in accept.out:
            v.counts["damaged markup not reached"] += 1
            return
        try:
            programs = run.compile_all(c.text, modes(c), render["engine"],
                                       case["named"])
        except Exception as e:
            return refused(e, v)
        render["values"][k][i] = ["x", s2]
        r = run.render(programs, case["main"], accept.mode, render)
        self.measure(accept, v)
        v.faults["inserted markup damaged: " + how] += 1
        v.nontrivial = True
        from ..core import digest
        v.sig = digest(case["damaged"], r.outcome, r.out)
        v.sample = {"damaged": case["damaged"], "outcome": r.outcome}
        from .. import damage
        verdict = damage.wellformed(s2, accept.mode)
        # white space and case are left out of the comparison: translations
        # change both
        r.out, accept.out, refuse.out = map(
            squeeze, (r.out, accept.out, refuse.out))
        strict = render["opts"].get("strictinsert", 1)
        with_attrs = self.has_attributes(c, k)
        if with_attrs:
            # the attributes change the inserted text: decided elsewhere
            v.counts["damaged, with attributes"] += 1
            if verdict is False and r.outcome == accept.outcome == ["ok"] and \
                    r.out != refuse.out:
                v.fail("accepted", "malformed markup %r was inserted" % s2)
            return
        if not strict:
            want = accept.out.replace(mark, squeeze(s2))
            if accept.outcome == ["ok"] and r.out != want:
                v.fail("unchecked", show_diff(r.out, want))
            return
        if r.outcome == refuse.outcome and r.out == refuse.out:
            v.counts["damaged, refused"] += 1
            if verdict is True and not self.around(r.out, accept, mark):
                v.fail("refused", "well-formed markup %r was refused: %s"
                       % (s2, getattr(r, "detail", "contained")))
            return
        if r.outcome == accept.outcome and self.around(r.out, accept, mark):
            v.counts["damaged, accepted"] += 1
            if verdict is False:
                v.fail("accepted", "malformed markup %r was inserted" % s2)
            return
        if r.outcome == refuse.outcome and r.outcome[0] == "exc" and \
                refuse.out.startswith(r.out):
            return
        if r.outcome == accept.outcome and r.outcome[0] == "exc" and \
                accept.out.split(mark)[0].startswith(r.out):
            return                    # nothing of it written before a later failure
        v.fail("neither inserted nor refused", "got %s %r, expected %s %r or %s %r"
               % (r.outcome, r.out, accept.outcome, accept.out, refuse.outcome,
                  refuse.out))

    def around(self, out, accept, mark):
        """Is everything around the inserted markup as the model says?"""
        parts = accept.out.split(mark)
        if not out.startswith(parts[0]):
            return False
        pos = len(parts[0])
        for p in parts[1:]:
            j = out.find(p, pos)
            if j < 0:
                return False
            pos = j + len(p)
        return accept.outcome[0] == "exc" or out.endswith(parts[-1])

    def has_attributes(self, c, k):
        for f, t in c.tpl.items():
            for el in walk(t["kids"]):
                if el.get("attributes") and "replace" in el and \
                        el["replace"][1].endswith(":" + k):
                    return True
        return False

    def reductions(self, case):
        return ModelCheck.reductions(self, case)

    def compare(self, case, r, m, v):
        self.cmp_output(r, m, v)
        for rec in r.log:
            if rec[0] == "eval" and isinstance(rec[1], int) and rec[1] >= 999001:
                v.fail("executed", "a directive in inserted markup was executed")
        v.counts["structures inserted"] += m.fragments
        v.nontrivial = m.fragments > 0
        v.sample = dict(describe(m), structures=m.fragments)


def walk(nodes):
    for k in nodes:
        if k["t"] == "el":
            yield k
            yield from walk(k.get("kids", ()))
