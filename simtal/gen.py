"""Seeded generation of cases: templates, data, fault plans."""
import copy
import random

from .model import Compiled, Model, TooMuch
from .tree import text
from .values import BASE_EXC, ENDS, EXC

NAMES = {
    "html": ["b", "i", "u", "em", "span", "code", "a", "q", "s", "div", "ul"],
    "xml": ["b", "i", "item", "Foo", "x:y", "data", "q", "p", "title", "pre"],
}
VOID = ["br", "img", "input", "hr"]
ATTRS = ["title", "class", "id", "alt", "rel", "lang"]
BOOLS = ["checked", "disabled", "selected"]
LOCALS = ["aa", "bb", "cc", "dd"]
GLOBALS = ["ga", "gb"]
INLINE = [n for n in NAMES["html"] if n not in ("div", "ul")]
NSDECLS = [["xmlns", "urn:d"], ["xmlns:y", "urn:y"], ["xmlns:z", "urn:z"],
           ["xmlns:v", "urn:v"]]
DOMAINS = ["d1", "d2", "default", "lower", "title"]
PREFIXES = {"tal": ["t", "p"], "metal": ["m", "p2", "q"], "i18n": ["i", "p3"]}
WS = ["", "", "", " ", "\n", "\n  ", "\n\t", "  \n "]

# feature -> probability per element, before swarm selection
BASE = {
    "define": .18, "cond": .15, "repeat": .15, "omit": .1, "attributes": .2,
    "content": .2, "replace": .1, "onerror": .2, "struct": .35, "script": .03,
    "trans": .15, "iname": .5, "idomain": .08, "iattrs": .1, "idata": .25,
    "use": .0, "defslot": .0, "ns": .15, "void": .08, "var": .35,
    "message": .1, "malformed": .08, "default": .15, "nothing": .08,
    "badmacro": .03, "rebind": .25, "global": .2, "raw": .1, "alias": .05,
    "again": .25, "lang": .03, "pre": .04, "odd": .12, "entity": .2,
    "dummy": .12, "position": 0, "implied": .06, "closed": .3,
    "defmacro": .1, "nsdecl": .06,
}

PROFILES = {
    "general": {},
    "tal": {"trans": 0, "iattrs": 0, "idomain": 0, "message": 0},
    "error": {"onerror": .35},
    "scope": {"define": .5, "var": .7, "repeat": .25, "onerror": .3, "trans": .08},
    "i18n": {"trans": .4, "iname": .6, "iattrs": .2, "message": .25,
             "onerror": .25, "idomain": .15},
    "metal": {"use": .3, "defslot": .3, "onerror": .2, "var": .3, "trans": .05,
              "content": .15},
    "nest": {"use": .55, "defslot": .3, "onerror": .1, "trans": .03, "content": .1,
             "replace": .02, "struct": .1},
    "struct": {"content": .4, "replace": .3, "struct": .9, "malformed": .2,
               "attributes": .35, "trans": .1, "onerror": .25},
}

PROLOGS = ['<?xml version="1.0"?>\n', "<?xml\tversion='1.0'?>",
           '<?xml version="1.0"?><!DOCTYPE html>\n',
           '<?xml\nversion="1.0" standalone="yes" ?>\n\n<!-- prolog -->',
           '<?xml version="1.0"?>\n<?xml-stylesheet href="a.css"?>\n',
           "<!DOCTYPE html>\n"]
HTML_PROLOGS = ["\n<?xml version='1.0'?>\n", "\n<!doctype html>", "<!DOCTYPE html>\n"]


class Gen:

    def __init__(self, rng, profile="general", mode=None, size=None, libs=None,
                 engine=None, swarm=True, pages=0, extend=.25, big=None, **over):
        self.rng = rng
        self.mode = mode or rng.choice(["html", "html", "xml"])
        self.engine = engine or rng.choice(["sim", "sim", "bundled"])
        p = dict(BASE)
        p.update(PROFILES[profile])
        p.update(over)
        if swarm:
            for k in p:
                if p[k] and k not in over:
                    p[k] *= rng.choice([0, .5, 1, 1, 1, 1.5])
            if "onerror" in PROFILES[profile]:
                p["onerror"] = max(p["onerror"], .15)
        self.p = p
        # now and then much longer, wider and deeper than usual
        self.big = rng.random() < .04 if big is None else big
        self.size = size or rng.choice([6, 10, 16, 24, 60] if self.big else
                                       [6, 10, 16, 24])
        self.slots = ["s%d" % k for k in range(1, 15 if self.big else 4)]
        self.depth = 20 if self.big else 5
        self.libs = libs
        self.pages = pages        # further templates beside the main one
        self.extend = extend
        self.datas = []
        self.next = 0
        self.values = {}
        self.templates = {}
        self.macros = []          # (file, name, [slots])
        self.vocab = 0
        self.inserts = []         # markup used so far

    # small helpers

    def id(self):
        self.next += 1
        return self.next

    def chance(self, feature):
        return self.rng.random() < self.p[feature]

    def word(self):
        self.vocab += 1
        w = "w%d" % self.vocab
        r = self.rng.random()
        if r < .12:
            w += self.rng.choice(["&", "<x>", '"', "a b", " ", "\n", "é", "'", "${n}"])
        if self.big and r > .95:
            w += self.length()
        return w

    def length(self):
        n = self.rng.choice([80, 300, 1100, 5000, 20000])
        return self.rng.choice(["x", " long", "\n"]) * n

    def some(self, few, many):
        """How many of something there are."""
        return self.rng.choice(few + many if self.big else few)

    def static(self):
        w = self.safe()
        if self.chance("entity"):
            w += self.rng.choice(["&amp;", "&lt;b&gt;", "&quot;", "é", " x", "&amp; ", ";"])
        return w

    def safe(self):
        self.vocab += 1
        return "w%d" % self.vocab

    # expressions

    def const(self, specs):
        i = self.id()
        self.values[str(i)] = specs
        return "k:%d" % i

    def expr(self, role, sc):
        rng = self.rng
        if role in ("text", "attr", "define", "cond", "bool") and self.chance("var"):
            r = rng.random()
            names = list(sc["vars"])
            if r < .15:
                names = LOCALS + GLOBALS
            if r > .93:
                return "a:%s:%d" % (rng.choice(ATTRS), self.id())
            if r > .88:
                return "e:%d" % self.id()
            if sc["lib"] and r > .84:
                return "v:macroname:%d" % self.id()
            if names:
                return "v:%s:%d" % (rng.choice(names), self.id())
        if self.engine == "bundled" and role in ("text", "attr", "define", "cond") \
                and self.chance("dummy"):
            return self.dummy(role, sc)
        n = self.some([1, 1, 2, 3], [8, 30])
        return self.const([self.spec(role) for _ in range(n)])

    def dummy(self, role, sc):
        """An expression the bundled engine evaluates itself."""
        rng = self.rng
        i = self.id()
        names = list(sc["vars"]) * 3 + LOCALS
        if self.chance("position") and role != "cond":
            return "d:%d:position:" % i
        if role == "cond":
            return "d:%d:exists:%s" % (i, rng.choice(names))
        kind = rng.choice(["string", "str", "path", "var", "local", "python",
                           "exists", "path"])
        if kind == "exists" or kind == "path" and rng.random() < .02:
            return "d:%d:%s:%s" % (i, kind, rng.choice(names))
        if kind == "python":
            return "d:%d:python:%d+1" % (i, rng.randrange(9))
        if kind in ("string", "str"):
            return "d:%d:%s:%s" % (i, kind, self.safe())
        if sc["vars"] and rng.random() < .7:
            return "d:%d:%s:%s" % (i, kind, rng.choice(sc["vars"]))
        if role == "define":
            return "d:%d:string:%s" % (i, self.safe())
        return "d:%d:%s:%s" % (i, kind, rng.choice(["nothing", "default"]))

    def name(self, sc):
        return self.rng.choice(INLINE if sc.get("inline") else NAMES[self.mode])

    def spec(self, role):
        rng = self.rng
        if role == "text" or role == "attr":
            if self.chance("default"):
                return ["d"]
            if self.chance("nothing"):
                return ["n"]
            if self.chance("message"):
                return self.message()
            if rng.random() < .1:
                return ["i", rng.randrange(100)]
            if self.chance("odd"):
                return rng.choice([["s", ""], ["i", 0], ["o", self.word()], ["o", ""],
                                   ["s", " "]])
            return ["s", self.word()]
        if role == "struct":
            if self.chance("default"):
                return ["d"]
            if self.chance("nothing"):
                return ["n"]
            if self.chance("message"):
                return self.message()
            if self.chance("malformed"):
                return ["x", self.malformed()]
            if rng.random() < .15:
                return ["s", self.safe() + rng.choice(["", " &amp; ", " x"])]
            if self.chance("odd"):
                return rng.choice([["s", ""], ["i", 0], ["o", self.safe()], ["o", ""],
                                   ["s", " "]])
            if self.inserts and self.chance("again"):
                return ["h", copy.deepcopy(rng.choice(self.inserts))]
            f = self.fragment()
            self.inserts.append(f)
            return ["h", f]
        if role == "plainstruct":
            if self.chance("default"):
                return ["d"]
            if self.chance("nothing"):
                return ["n"]
            if self.chance("message"):
                return self.message()
            if self.chance("odd"):
                return ["o", self.safe()]
            return ["s", self.safe()]
        if role == "define":
            if rng.random() < .1:
                return rng.choice([["n"], ["s", ""], ["i", 0], ["b", False]])
            return ["s", self.word()] if rng.random() < .9 else ["i", rng.randrange(9)]
        if role == "cond":
            return self.truth(.75)
        if role == "omit":
            return self.truth(.5)
        if role == "bool":
            if self.chance("default"):
                return ["d"]
            return self.truth(.6)
        if role == "seq":
            return ["l", [self.word() if rng.random() < .95 else "" for _ in range(
                self.some([0, 1, 2, 2, 3], [7, 20, 60, 150]))]]
        if role == "data":
            if not self.datas or rng.random() < .5:
                self.datas.append(["map", {"k1": self.safe(), "k2": self.safe()}])
            return rng.choice([["n"], rng.choice(self.datas)])
        if role == "code":
            return ["s", self.word()]
        raise AssertionError(role)

    def truth(self, p):
        """True with probability p, perhaps as some other true or false value."""
        rng = self.rng
        yes = rng.random() < p
        if rng.random() < .9:
            return ["b", yes]
        return rng.choice([["s", "x"], ["i", 7], ["s", "0"]] if yes else
                          [["n"], ["s", ""], ["i", 0]])

    def message(self):
        d = {"id": self.safe() + self.rng.choice(["", " ${mv}"]),
             "domain": self.rng.choice(["md", "me"])}
        if self.rng.random() < .5:
            d["mapping"] = {"mv": self.safe()}
        if self.rng.random() < .5:
            d["default"] = self.safe()
        return ["m", d]

    def fragment(self, depth=0):
        rng = self.rng
        out = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            if rng.random() < .35 or depth > 2:
                out.append(text(self.safe() + rng.choice(["", " ", "\n"])))
                continue
            el = {"t": "el", "name": rng.choice(NAMES[self.mode][:6 if self.mode == "html" else 4])}
            if rng.random() < .4:
                el["attrs"] = [[a, self.safe()]
                               for a in rng.sample(ATTRS, rng.choice([1, 2]))]
            if self.mode == "html" and rng.random() < .12:
                el["name"] = rng.choice(VOID)
                el["void"] = rng.choice([1, 2])
            else:
                el["kids"] = self.fragment(depth + 1) if rng.random() < .7 else []
            r = rng.random()
            if r < .12 and not el.get("void"):
                # directives that must not be executed
                if self.mode == "xml":
                    from .tree import TAL
                    el.setdefault("attrs", []).insert(0, ["xmlns:tal", TAL])
                el[rng.choice(["content", "onerror"])] = ["", "k:999001"]
                if rng.random() < .5:
                    el["cond"] = "k:999002"
                if rng.random() < .3:
                    el["define"] = [["", "aa", "k:999003"]]
                if rng.random() < .3:
                    el["repeat"] = ["aa", "k:999004"]
                if self.mode == "html":
                    if rng.random() < .3:
                        el[rng.choice(["itrans", "use", "defmacro", "defslot"])] = "m"
            out.append(el)
        return out

    def malformed(self):
        w = self.safe()
        both = ["%s</b>", "<b>%s</i></b>", "<i>%s</b>", "<b>x</b>%s</b>",
                "<b>%s</b></i>"]
        html = both + ["<br>%s</br>", "<b><br></br>%s</b>"]
        xml = both + ["a</foo><foo>%s", "<b>%s", "<b a=1>%s</b>", "<b>%s</b", "%s & x", "<b>%s</b><", "&undef;%s<i>",
                      "<z:b>%s</z:b>", "<b a='1' a='2'>%s</b>"]
        return self.rng.choice(html if self.mode == "html" else xml) % w

    # elements

    def scope(self, **kw):
        sc = {"vars": [], "unit": False, "lib": False, "macro": False, "use": False,
              "depth": 0, "file": "main.pt", "handler": False, "alias": frozenset()}
        sc.update(kw)
        return sc

    def kids(self, sc, n=None):
        rng = self.rng
        out = []
        if n is None:
            n = self.some([0, 1, 1, 2, 2, 3], [1, 1, 1, 8])
        for _ in range(n):
            if self.size <= 0:
                break
            out.extend(self.filler_text())
            out.append(self.el(sc))
        out.extend(self.filler_text())
        return out

    def filler_text(self):
        rng = self.rng
        r = rng.random()
        out = []
        if r < .3:
            w = self.safe()
            if self.big and r < .02:
                w += self.length()
            out.append(text(w))
        elif r < .36:
            out.append(text("<!-- %s -->" % self.safe()))
        elif r < .4:
            out.append(text(rng.choice(["&amp;", "&#65;", "&lt;"])))
        elif r < .42:
            out.append(text(rng.choice(
                ["<?php %s ?>", "<![CDATA[%s < &]]>", "<x:n>%s</x:n>", "<n/>%s"]
                if self.mode == "xml" else
                ["<?php %s ?>", '<script>if (a < b && "%s") "</b>"</script>',
                 "<style>%s > b</style>", "<x-n>%s</x-n>"]) % self.safe()))
        ws = rng.choice(WS)
        if ws:
            out.append(text(ws))
        return out

    def el(self, sc):
        rng = self.rng
        self.size -= 1
        el = {"t": "el", "n": self.id(), "name": self.name(sc)}
        if self.mode == "html" and not sc["use"] and self.chance("script"):
            el["name"] = "script"
            el["script"] = self.id()
            if rng.random() < .2:
                el["lang"] = rng.choice(["text/server-perl", "text/server-"])
            self.values[str(el["script"])] = [self.spec("code") for _ in range(2)]
            return el
        if not sc["use"]:
            if sc["depth"] < self.depth and self.macros and self.chance("use"):
                return self.use(el, sc)
            if self.p["use"] and sc["depth"] < self.depth and self.chance("defmacro"):
                # a macro inside another one, or anywhere
                name = "sub%d" % self.id()
                el, slots = self.macro_el(sc["file"], name, sc)
                self.macros.append((sc["file"], name, slots))
                return el
            if sc["macro"] and self.chance("defslot"):
                el["defslot"] = rng.choice(sc["slots"])
                sc["seen"].add(el["defslot"])
                sc = dict(sc, unit=False)
        if sc["depth"] > self.depth or self.size <= 0:
            sc = dict(sc, leaf=True)
        return self.fill_el(el, sc)

    def fill_el(self, el, sc):
        """Directives and content of an element."""
        rng = self.rng
        sc = dict(sc, depth=sc["depth"] + 1, vars=list(sc["vars"]))
        metal = any(k in el for k in ("defslot", "fillslot", "defmacro"))
        if not metal and self.mode == "html" and self.chance("void"):
            el["name"] = rng.choice(VOID[:3] if sc.get("inline") else VOID)
            el["void"] = rng.choice([1, 2])
        if self.chance("ns") and not el.get("void"):
            el["ns"] = rng.choice(["tal", "tal", "metal", "i18n"])
            el["name"] = rng.choice(["block", "x"])
            if rng.random() < .4:
                el["un"] = 1
        elif rng.random() < .4:
            el["attrs"] = [[a, self.static()]
                           for a in rng.sample(ATTRS, self.some([1, 2, 3], [5, 6]))]
            if self.mode == "html" and rng.random() < .1:
                el["attrs"].append([rng.choice(BOOLS), None])
        if rng.random() < .1:
            el["nl"] = 1
        if rng.random() < .3:
            el["rev"] = 1
        if rng.random() < .1:
            el["q"] = 1
        if rng.random() < .07:
            el["sp"] = 1
        if rng.random() < .07:
            el["semi"] = 1
        if self.mode == "html" and rng.random() < .07:
            el["up"] = 1
        if self.chance("alias"):
            el["alias"] = {ns: rng.choice(PREFIXES[ns]) for ns in rng.sample(
                ["tal", "metal", "i18n"], rng.choice([1, 1, 2, 3]))}
            sc["alias"] = sc["alias"] | set(el["alias"].values())
        if not el.get("ns") and self.chance("alias"):
            # a foreign attribute that looks like a directive
            p = rng.choice(["t", "p", "q"])
            if p not in sc["alias"]:
                el.setdefault("attrs", []).append(
                    [p + ":" + rng.choice(["content", "define", "translate",
                                           "use-macro"]), self.safe()])
                if self.mode == "xml":
                    el["attrs"].insert(0, ["xmlns:" + p, "urn:" + p])
        if self.mode == "xml" and not el.get("ns") and self.chance("nsdecl"):
            el["attrs"] = [list(x) for x in rng.sample(NSDECLS, rng.choice([1, 2, 3]))
                           ] + el.get("attrs", [])
        if self.chance("lang"):
            el[rng.choice(["isource", "itarget"])] = rng.choice(["de", "fr"])
        if self.chance("idomain"):
            el["idomain"] = rng.choice(DOMAINS)
        if self.chance("onerror") and not el.get("void"):
            el["onerror"] = self.substitution(sc, "onerror")
        if self.chance("define"):
            el["define"] = []
            for _ in range(self.some([1, 1, 2, 3], [8, 20])):
                if self.chance("global"):
                    name = rng.choice(GLOBALS * 2 + LOCALS[:1])
                    el["define"].append(["global", name, self.expr("define", sc)])
                else:
                    name = rng.choice(LOCALS)
                    el["define"].append([rng.choice(["", "local"]), name,
                                         self.expr("define", sc)])
                sc["vars"].append(name)
        if self.chance("cond"):
            el["cond"] = self.expr("cond", sc)
        if self.chance("repeat"):
            name = rng.choice(LOCALS)
            el["repeat"] = [name, self.expr("seq", sc)]
            sc["vars"].append(name)
        if sc["unit"] and self.chance("iname"):
            el["iname"] = "n%d" % self.id()
        if self.chance("attributes"):
            names = rng.sample(ATTRS + (BOOLS if self.mode == "html" else []),
                               self.some([1, 1, 2, 3], [5, 6]))
            el["attributes"] = [[n, self.expr("bool" if n in BOOLS else "attr", sc)]
                                for n in names]
        if self.chance("replace") and not metal:
            el["replace"] = self.substitution(sc)
            # whose attributes "attrs" means there is nobody's business
            for a in el.get("attributes", ()):
                if a[1].startswith("a:"):
                    a[1] = self.const([["s", self.word()]])
        elif self.chance("omit"):
            el["omit"] = rng.choice(["", self.expr("omit", sc)])
        if el.get("void"):
            return el
        if "replace" not in el and self.chance("content"):
            xlat = self.chance("trans")
            el["content"] = self.substitution(sc, "content", plain=xlat)
            if xlat:
                el["itrans"] = ""
                sc["unit"] = False
        elif "replace" not in el and self.chance("trans"):
            el["itrans"] = ""
            if rng.random() < .35:
                el["itrans"] = self.safe() + rng.choice(["", " ${k1}", " ${nx}"])
                if self.chance("idata"):
                    el["idata"] = self.expr("data", sc)
            sc["unit"] = True
            if self.mode == "html" and not self.p["use"] and not el.get("ns") and \
                    not sc.get("within") and self.chance("pre"):
                el["name"] = "pre"
            sc["within"] = True
        if self.chance("iattrs") and not el.get("ns") and "replace" not in el:
            dyn = [n for n, e in el.get("attributes", ()) if n not in BOOLS]
            stat = [n for n, v in el.get("attrs", ())
                    if n not in BOOLS and not n.startswith("xmlns")]
            pool = sorted(set(dyn) | set(stat))
            if pool:
                el["iattrs"] = [[n, None if n in dyn or rng.random() < .5
                                 else self.safe() + rng.choice(["", "", "", "-none"])]
                                for n in rng.sample(
                    pool, min(len(pool), rng.choice([1, 1, 1, 2, 3])))]
        if self.mode == "html" and not el.get("ns") and el["name"] != "pre" and \
                not sc.get("inline") and self.chance("implied"):
            self.implied(el, sc)
        elif not sc.get("leaf"):
            el["kids"] = self.kids(sc)
        else:
            el["kids"] = self.filler_text()
        if self.mode == "xml" and not el["kids"]:
            el["selfclose"] = rng.random() < .5
        elif self.mode == "html" and "itrans" not in el and self.chance("closed") \
                and all(k["t"] == "text" for k in el["kids"]) and (
                    not el["kids"] or rng.random() < .2):
            el["kids"] = []
            el["selfclose"] = True
        return el

    def implied(self, el, sc):
        """A list, or paragraphs, without end tags."""
        rng = self.rng
        el["name"] = kind = rng.choice(["ul", "div"])
        el["kids"] = [text(rng.choice(WS))]
        for _ in range(rng.choice([1, 2, 3])):
            k = {"t": "el", "n": self.id(), "implied": 1}
            if kind == "ul":
                k["name"] = "li"
                isc = sc
            else:
                k["name"] = "p"
                isc = dict(sc, inline=True)
            if rng.random() < .3:
                k["attrs"] = [[rng.choice(ATTRS), self.safe()]]
            if sc.get("leaf"):
                k["kids"] = self.filler_text()
            else:
                k["kids"] = self.kids(isc)
            el["kids"].append(k)

    def substitution(self, sc, what="content", plain=False):
        rng = self.rng
        if self.chance("struct"):
            i = self.const([self.spec("plainstruct" if plain else "struct")
                            for _ in range(self.some([1, 2], [8, 20]))])
            return ["structure", i]
        if what == "onerror" and rng.random() < .4:
            return [rng.choice(["", "text"]), "e:%d" % self.id()]
        if what == "onerror":
            sc = dict(sc, lib=False)
        return [rng.choice(["", "text"]), self.expr("text", sc)]

    # METAL

    def use(self, el, sc):
        rng = self.rng
        f, name, slots = rng.choice(self.macros)
        i = self.id()
        el["use"] = "m:%d/%s" % (i, rng.choice(["mm", name]))
        specs = [["mac", f, name]]
        if self.chance("rebind"):
            f2, n2, s2 = rng.choice(self.macros)
            specs.append(["mac", f2, n2])
            slots = sorted(set(slots) | set(s2))
        if rng.random() < .06:
            specs.append(["d"])
        if self.chance("badmacro"):
            specs.append(rng.choice([["badmode"], ["badver", rng.randrange(7)]]))
        rng.shuffle(specs)
        self.values[str(i)] = specs
        self.use_content(el, sc, slots)
        return el

    def use_content(self, el, sc, slots):
        rng = self.rng
        el["kids"] = []
        if rng.random() < .3:
            el["attrs"] = [["class", self.safe()]]
        for s in slots:
            if rng.random() < .7:
                f = {"t": "el", "n": self.id(), "name": self.name(sc),
                     "fillslot": s}
                fsc = dict(sc, depth=sc["depth"] + 1, use=False, unit=False)
                if sc["macro"] and rng.random() < .25:
                    f["defslot"] = rng.choice(sc["slots"])
                    sc["seen"].add(f["defslot"])
                self.size -= 1
                if self.size <= 0:
                    fsc["leaf"] = True
                el["kids"].extend(self.filler_text())
                el["kids"].append(self.fill_el(f, fsc))
        if rng.random() < .3 and self.size > 0:
            # not part of any filler: must not be rendered
            el["kids"].append(self.el(dict(sc, use=True, unit=False, leaf=True)))

    def macro_el(self, file, name, sc):
        rng = self.rng
        el = {"t": "el", "n": self.id(), "name": self.name(sc),
              "defmacro": name}
        msc = dict(sc, macro=True, slots=self.slots, seen=set(), unit=False)
        if self.macros and rng.random() < self.extend:
            f, n, slots = rng.choice(self.macros)
            i = self.id()
            el["extend"] = "m:%d/%s" % (i, n)
            self.values[str(i)] = [["mac", f, n]]
            self.use_content(el, msc, slots)
            seen = msc["seen"] | set(slots)
        else:
            self.fill_el(el, msc)
            seen = msc["seen"]
        return el, sorted(seen)

    def root(self, kids):
        rng = self.rng
        if self.mode == "xml":
            return [{"t": "el", "n": self.id(), "name": "root", "root": 1,
                     "attrs": [["xmlns:x", "urn:x"]] + [
                         list(x) for x in rng.sample(NSDECLS, rng.choice([0, 0, 1, 3]))],
                     "kids": kids}]
        return kids

    def build(self):
        """Fill in self.templates; returns the name of the main template."""
        rng = self.rng
        nlibs = self.libs
        if nlibs is None:
            nlibs = rng.choice([1, 1, 2]) if self.p["use"] else 0
        total = self.size
        for k in range(nlibs):
            f = "lib%d.pt" % k
            kids = []
            mine = []
            for j in range(self.some([1, 2, 3], [6])):
                self.size = max(3, total // 3)
                name = "mac%d%d" % (k, j)
                el, slots = self.macro_el(f, name, self.scope(lib=True, file=f))
                kids.extend(self.filler_text())
                kids.append(el)
                # later macros may use earlier ones: no recursion
                self.macros.append((f, name, slots))
                mine.append(name)
            self.templates[f] = {"mode": self.mode, "kids": self.root(kids),
                                 "decl": self.decl()}
        for k in range(self.pages):
            self.size = max(3, total // 2)
            self.page("page%d.pt" % k, nlibs)
        self.size = total
        self.page("main.pt", nlibs)
        return "main.pt"

    def decl(self):
        rng = self.rng
        if rng.random() >= .2:
            return False
        return rng.choice(PROLOGS + HTML_PROLOGS if self.mode == "html"
                          else PROLOGS)

    def page(self, f, nlibs):
        rng = self.rng
        kids = []
        while self.size > 0:
            kids.extend(self.kids(self.scope(file=f), 1))
            if self.p["use"] and rng.random() < .1 and nlibs:
                self.size -= 3
                name = "own%d" % self.id()
                el, slots = self.macro_el(f, name, self.scope(file=f))
                kids.append(el)
                self.macros.append((f, name, slots))
        self.templates[f] = {"mode": self.mode, "kids": self.root(kids),
                             "decl": self.decl()}

    def render(self, **opts):
        rng = self.rng
        o = {}
        if rng.random() < .25:
            o["strictinsert"] = 0
        o.update(opts)
        return {"values": self.values, "faults": [], "opts": o, "engine": self.engine}


def plan_faults(rng, compiled, render, main, count, want=None, kinds=None,
                base=False, named=True, prefer=None):
    """Choose up to *count* faults, each at a call the rendering really makes.

    want: None (any), "contained" (the rendering must still succeed) or
    "escape" (the last one must escape).
    """
    render = dict(render, faults=[])
    for j in range(count):
        m = Model(compiled, render, named=named).run(main)
        if m.outcome[0] != "ok" and not (want == "contained"):
            break
        calls = [r for r in m.log if kinds is None or r[0] in kinds]
        if not calls:
            break
        if prefer:
            some = [r for r, meta in zip(m.log, m.meta)
                    if (kinds is None or r[0] in kinds) and prefer(r, meta)]
            if some and rng.random() < .8:
                calls = some
        ok = False
        for attempt in range(6):
            r = rng.choice(calls)
            at = [r[0], r[1], r[2]]
            if any(f["at"] == at for f in render["faults"]):
                continue
            exc = rng.choice(EXC)
            if r[0] == "next" and exc in ENDS:
                exc = "KeyError"
            again = [f["exc"] for f in render["faults"] if f["exc"].endswith("*")]
            if again and rng.random() < .7:
                exc = again[0]
            elif rng.random() < .08 and exc not in ENDS:
                exc += "*"        # may be raised again, the same object
            elif base and rng.random() < (.15 if base == "contained" else .3):
                exc = rng.choice(BASE_EXC)
            trial = dict(render, faults=render["faults"] + [{"at": at, "exc": exc}])
            m2 = Model(compiled, trial, named=named).run(main)
            if base != "contained" and any(c[3] for c in m2.contained):
                continue          # a BaseException would meet an on-error
            if want == "contained" and m2.outcome[0] != "ok":
                continue
            if want == "escape" and j == count - 1 and m2.outcome[0] == "ok":
                continue
            ok = True
            break
        if not ok:
            continue
        render = trial
    return render


def rng_for(seed):
    return random.Random(seed)


def make_case(rng, profile, nfaults=None, want=None, base=False, kinds=None,
              named=True, opts=None, prefer=None, **kw):
    """One rendering case, or None if the model finds it too expensive."""
    g = Gen(rng, profile, **kw)
    main = g.build()
    compiled = Compiled(g.templates)
    render = g.render(**(opts or {}))
    if nfaults is None:
        nfaults = rng.choice([1, 1, 2, 2, 3, 4])
    try:
        render = plan_faults(rng, compiled, render, main, nfaults, want, kinds,
                             base, named, prefer)
        m = Model(compiled, render, named=named).run(main)
    except TooMuch:
        return None
    return {"templates": g.templates, "main": main, "render": render,
            "named": named}
