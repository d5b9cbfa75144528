"""Reference model: what rendering a template tree means.

A direct tree walk that imports nothing from zope.tal.  Given the same value
table and fault plan it predicts the output, every engine call (with the
location that must have been announced before it), and the outcome.
"""
from .values import BASE_EXC, Thing, bundled_translation, pick, translation
from . import tree


class Failure(Exception):
    """A failure under way to the nearest on-error."""

    def __init__(self, tag, el, base=False):
        Exception.__init__(self, tag)
        self.tag = tag
        self.el = el
        self.base = base


class TooMuch(Exception):
    pass


def esc(s):
    return s.replace("&", "&amp;").replace("<", "&lt;").replace(">", "&gt;")


def quote(s):
    return '"%s"' % esc(s).replace('"', "&quot;")


def unesc(s):
    for a, b in (("&lt;", "<"), ("&gt;", ">"), ("&quot;", '"'), ("&amp;", "&")):
        s = s.replace(a, b)
    return s


def norm(s):
    return " ".join(s.split())


BOOLEAN = {"checked", "disabled", "selected", "readonly", "multiple", "ismap",
           "compact", "nowrap", "declare", "noshade", "noresize", "defer"}


class Msg:
    def __init__(self, d):
        self.d = d


DEFAULT = object()


class Compiled:
    """Annotated copies of the templates of a case."""

    def __init__(self, templates):
        import copy
        self.tpl = copy.deepcopy(templates)
        self.macros = {}
        self.pos = {}
        self.text = {}
        for f, t in self.tpl.items():
            self.macros[f] = tree.annotate(t, f)
            self.text[f], pos = tree.serialize(t)
            for n, p in pos.items():
                self.pos[n] = p


class Model:

    def __init__(self, compiled, render, budget=6000, named=True):
        self.c = compiled
        self.r = render
        self.values = render["values"]
        self.faults = {tuple(f["at"]): f["exc"] for f in render.get("faults", ())}
        self.shared = {}
        self.opts = render.get("opts", {})
        self.strict = self.opts.get("strictinsert", 1)
        self.limit = self.opts.get("stackLimit", 100)
        self.metal = self.opts.get("metal", 1)
        self.tal = self.opts.get("tal", 1)    # off: tags are only roughly right
        self.wrap = self.opts.get("wrap", 0)
        self.col = 0              # output column, kept for wrap only
        self.bundled = render.get("engine", "sim") != "sim"
        self.named = named
        self.budget = budget
        self.log = []
        self.meta = []            # per call: scopes, macro uses, units, on-errors
        self.guards = 0
        self.expanding = 0        # macro uses around, also those of fillers
        self.occ = {}
        self.fired = []
        self.vague = set()        # failures located at "?"
        self.contained = []       # (tag, handler element, what was in flight)
        self.bufs = [[]]
        self.scopes = [{}]
        self.globals = {}
        self.units = []
        self.dom = "default"
        self.frames = []
        self.maxdepth = 0
        self.outcome = None
        self.fragments = 0
        self.inserted = 0         # most attributes added to one tag
        self.stats = {}

    # running

    def run(self, main):
        self.main = main
        t = self.c.tpl[main]
        self.mode = t["mode"]
        try:
            self.nodes([t["_pre"]] + t["kids"])
            self.outcome = ["ok"]
            self.fail_el = None
        except Failure as f:
            self.outcome = ["exc", f.tag]
            self.fail_el = f.el
        self.out = "".join(self.bufs[0])
        return self

    def w(self, s):
        self.bufs[-1].append(s)
        if self.wrap:
            self.advance(s)

    def advance(self, s):
        i = s.rfind("\n")
        self.col = self.col + len(s) if i < 0 else len(s) - i - 1

    def stat(self, k):
        self.stats[k] = self.stats.get(k, 0) + 1

    def call(self, kind, ident, el, extra=None):
        self.budget -= 1
        if self.budget < 0:
            raise TooMuch()
        key = (kind, ident)
        n = self.occ.get(key, 0)
        self.occ[key] = n + 1
        p = self.c.pos[el["n"]]
        rec = [kind, ident, n, extra, self.file_of(el), p[0], p[1]]
        self.log.append(rec)
        self.meta.append((len(self.scopes), len(self.frames), len(self.units),
                          self.guards, len(self.bufs)))
        at = (kind, ident, n)
        if at in self.faults:
            tag = "%s/%s/%d" % at
            if self.faults[at].endswith("*"):
                tag = self.shared.setdefault(self.faults[at], tag)
            self.fired.append(at)
            raise self.failure(tag, el, self.faults[at] in BASE_EXC)
        return n, rec

    def failure(self, tag, el, base=False):
        if self.file_of(el) == "?":
            self.vague.add(tag)
        return Failure(tag, el, base)

    def file_of(self, el):
        """The file that must have been announced for an element; "?" where
        a template without a name takes part in the expansion of a macro."""
        if self.named is True:
            return el["_file"]
        if self.named and el["_file"] in self.named:
            return el["_file"]
        return "?" if self.expanding or el["_file"] != self.main else None

    def lookup(self, name):
        for d in reversed(self.scopes):
            if name in d:
                return True, d[name]
        if name in self.globals:
            return True, self.globals[name]
        return False, None

    def dummy(self, expr, el):
        """An expression in the language of the bundled engine."""
        ident, kind, arg = expr.split(":", 3)[1:]
        n, rec = self.call("eval", int(ident), el)
        if kind in ("string", "str"):
            return arg
        if kind == "exists":
            return self.lookup(arg)[0]
        if kind == "python":
            return eval(arg, {}, {})
        if kind == "position":
            p = self.c.pos[el["n"]]
            r = "%s (%s,%s)" % (self.file_of(el), p[0], p[1])
            rec[3] = ["position", r]
            return r
        if arg in ("nothing", "default"):
            return None if arg == "nothing" else DEFAULT
        found, v = self.lookup(arg.strip())
        if not found:
            raise self.failure("OTHER", el)
        return v

    def eval(self, expr, el):
        if expr.startswith("d:"):
            return self.dummy(expr, el)
        parts = expr.split(":")
        form = parts[0]
        ident = int(parts[-1])
        n, rec = self.call("eval", ident, el)
        if form == "k":
            return self.make(pick(self.values[str(ident)], n))
        name = parts[1] if len(parts) == 3 else None
        if form == "v":
            found, v = self.lookup(name)
            r = v if found else "?%s?" % name
            rec[3] = [name, r]
            return r
        if form == "a":
            found, v = self.lookup("attrs")
            r = "?attrs?"
            if found:
                v = v.get(name, 0)
                r = v if isinstance(v, str) else "none"
            rec[3] = ["attrs." + name, r]
            return r
        if form == "e":
            found, v = self.lookup("error")
            r = "E(%s)" % v if found else "?error?"
            rec[3] = ["error", r]
            return r
        raise AssertionError(expr)

    def sequence(self, expr, el):
        return self.eval(expr, el)

    def data(self, expr, el):
        return self.eval(expr, el)

    def code(self, el):
        n, rec = self.call("code", str(el["script"]), el,
                           el.get("lang", tree.LANG))
        return str(self.make(pick(self.values[str(el["script"])], n)))

    def make(self, spec):
        k = spec[0]
        if k in ("s", "i", "l"):
            return spec[1]
        if k == "o":
            return Thing(spec[1])
        if k == "b":
            return bool(spec[1])
        if k == "n":
            return None
        if k == "d":
            return DEFAULT
        if k == "map":
            return dict(spec[1])
        if k == "m":
            return Msg(spec[1])
        return spec           # "h", "x": markup

    # translation

    def trans_msg(self, m, el):
        d = m.d
        self.stat("message")
        self.call("translate", d["id"], el,
                  ["message", d["id"], d.get("domain"),
                   sorted((k, str(v)) for k, v in (d.get("mapping") or {}).items())])
        return self.translation(d["id"], d.get("domain"), d.get("mapping"))

    def translation(self, msgid, domain, mapping):
        if self.bundled:
            r = bundled_translation(msgid, domain, mapping)
            if r is not None:
                return r
        return translation(msgid, domain, mapping)

    def trans(self, msgid, default, mapping, el):
        self.stat("translate")
        self.call("translate", msgid, el,
                  ["text", msgid, self.dom,
                   sorted((k, str(v)) for k, v in mapping.items()),
                   None if default is None else norm(default)])
        return self.translation(msgid, self.dom, mapping)

    # nodes

    def nodes(self, kids):
        for k in kids:
            if k["t"] == "text":
                if k["_s"]:
                    self.w(k["_s"])
            elif k.get("implied"):
                self.start_tag(k["name"], k.get("attrs", ()), {}, k, ">", False)
                self.nodes(k["kids"])
                self.w("</%s>" % k["name"])
                self.w(k["_tail"])
            else:
                self.el(k)

    def el(self, el):
        if "fillslot" in el:
            self.fill(el)
        elif "extend" in el:
            self.use(el, el["extend"], False)
        elif "use" in el:
            self.use(el, el["use"], False)
        elif "defslot" in el:
            self.slot(el)
        else:
            self.body(el)

    def fill(self, el):
        if "defslot" in el:
            self.slot(el)
        else:
            self.body(el)

    def use(self, el, expr, extending):
        if not self.metal:
            return self.body(el)
        ident = int(expr[2:].split("/", 1)[0])
        n, rec = self.call("eval", ident, el)
        spec = pick(self.values[str(ident)], n)
        rec[3] = ["macro"] + [str(s) for s in spec]
        if spec[0] in ("badmode", "badver"):
            self.stat("macro refused")
            raise self.failure("METAL", el)
        if len(self.frames) >= self.limit:
            self.stat("limit")
            raise self.failure("METAL", el)
        self.frames.append((el["_slots"], extending))
        self.expanding += 1
        self.maxdepth = max(self.maxdepth, len(self.frames))
        found, outer = self.lookup("macroname")
        self.scopes[-1]["macroname"] = expr.rsplit("/", 1)[-1]
        self.stat("macro")
        if spec[0] == "d":
            self.stat("macro default")
            self.body(el)
        else:
            m = self.c.macros[spec[1]][spec[2]]
            if "extend" in m:
                self.stat("extended")
                self.use(m, m["extend"], True)
            else:
                self.body(m)
        self.frames.pop()
        self.expanding -= 1
        self.scopes[-1]["macroname"] = outer

    def slot(self, el):
        fr = self.frames
        if self.metal and fr:
            depth = 1
            while depth < len(fr) and fr[-depth][1]:
                depth += 1
            for i in range(len(fr) - 1, len(fr) - 1 - depth, -1):
                f = fr[i][0].get(el["defslot"])
                if f is not None:
                    self.stat("slot filled")
                    saved = fr[:]
                    del fr[i:]
                    self.fill(f)
                    fr[:] = saved
                    return
        self.stat("slot default")
        self.body(el)

    def body(self, el):
        dom = self.dom
        has_i18n = any(d in el for d in tree.I18NDIRS)
        if "defslot" in el or has_i18n:
            if el["_dom"] != "default" or "idomain" in el or el["_lang"]:
                self.dom = el["_dom"]
        scope = has_i18n or el.get("ns") or any(d in el for d in tree.TALDIRS)
        if scope:
            attrs = {"attrs": {n: v if v is None else unesc(v)
                               for n, v in el.get("attrs", ())}}
            self.scopes.append(attrs)
        if "onerror" in el and self.tal:
            self.guarded(el)
        else:
            self.inner(el)
        if scope:
            self.scopes.pop()
        self.dom = dom

    def guarded(self, el):
        state = (len(self.scopes), self.frames[:], len(self.units),
                 dict(self.units[-1]) if self.units else None,
                 self.dom, len(self.bufs), self.expanding)
        scopes0 = len(self.scopes)
        col = self.col
        self.bufs.append([])
        guards = self.guards
        self.guards += 1
        try:
            self.inner(el)
        except Failure as f:
            self.guards = guards
            self.col = col
            inflight = (len(self.scopes) - state[0],
                        len(self.frames) - len(state[1]),
                        len(self.units) - state[2], len(self.bufs) - state[5])
            self.contained.append((f.tag, el["n"], inflight, f.base))
            del self.scopes[scopes0:]
            self.frames[:] = state[1]
            del self.units[state[2]:]
            if state[3] is not None:
                self.units[-1].clear()
                self.units[-1].update(state[3])
            self.dom = state[4]
            self.expanding = state[6]
            del self.bufs[state[5]:]
            p = self.c.pos[f.el["n"]]
            self.call("errinfo", f.tag, el, [p[0], p[1]])
            self.scopes.append({"error": f.tag})
            self.handler(el)
            self.scopes.pop()
        else:
            self.guards = guards
            s = "".join(self.bufs.pop())
            self.col = col
            self.w(s)

    def handler(self, el):
        kind, expr = el["onerror"]
        ns = el.get("ns")
        if not ns:
            self.start_tag(tree.tagname(el), el.get("attrs", ()), {}, el, ">")
        v = self.eval(expr, el)
        if v is not None and v is not DEFAULT:
            if kind == "structure":
                self.structure(v, el, [])
            else:
                self.text(v, el)
        if not ns:
            self.w("</%s>" % tree.tagname(el))

    def inner(self, el):
        if not self.tal:
            self.w(el["_ws"])
            self.w("<>")
            if "script" in el:
                self.w(self.code(el))
            else:
                self.nodes(el.get("kids", ()))
            self.w("<>")
            return
        for scope, name, expr in el.get("define", ()):
            v = self.eval(expr, el)
            if scope == "global":
                self.globals[name] = v
            else:
                self.scopes[-1][name] = v
        if "cond" in el and not self.eval(el["cond"], el):
            self.stat("cond false")
            return
        if "repeat" in el:
            name, expr = el["repeat"]
            seq = self.sequence(expr, el)
            ident = int(expr.split(":")[-1])
            i = 0
            while True:
                n, rec = self.call("next", ident, el)
                if i >= len(seq):
                    rec[3] = 0
                    break
                rec[3] = 1
                self.scopes[-1][name] = seq[i]
                i += 1
                self.w(el["_ws"])
                self.stat("iteration")
                self.named_(el)
        else:
            self.named_(el)

    def named_(self, el):
        if "iname" not in el:
            return self.tagged(el)
        depth = len(self.units)
        self.bufs.append([])
        self.tagged(el)
        v = norm("".join(self.bufs.pop()))
        assert self.units and len(self.units) == depth
        self.units[-1][el["iname"]] = v
        self.w("${%s}" % el["iname"])
        self.stat("name")

    def tagged(self, el):
        ns = el.get("ns")
        omit = el.get("omit")
        if "replace" in el and omit is None:
            omit = ""
        if "script" in el:
            omit = ""
        opt = omit is not None or ns
        if omit == "":
            hide = True
        elif omit is not None:
            hide = bool(self.eval(omit, el)) or bool(ns)
        else:
            hide = bool(ns)
        name = tree.tagname(el)
        if hide:
            self.bufs.append([])
            col = self.col
            self.start(el, "")
            self.col = col
            self.bufs.pop()
            self.content(el)
            return
        if el.get("void"):
            self.start(el, " />" if el["void"] == 2 else ">")
            return
        if self.mode == "html" and el.get("selfclose") and not (
                "content" in el or "replace" in el):
            self.start(el, " />")
            return
        empty = (self.mode == "xml" and not el.get("kids")
                 and not any(d in el for d in ("content", "replace", "itrans"))
                 and (opt or "iname" not in el))
        if empty:
            self.start(el, "/>")
            return
        self.start(el, ">")
        self.content(el)
        self.w("</%s>" % name)

    def start(self, el, end):
        repl = {}
        if "replace" not in el:
            for n, e in el.get("attributes", ()):
                repl[n] = (e, False, None)
            for n, m in el.get("iattrs", ()):
                e = repl.get(n, (None,))[0]
                if e is None and n not in dict(el.get("attrs", ())):
                    raise TooMuch()       # nothing to translate; not generated
                repl[n] = (e, True, m)
        self.start_tag(tree.tagname(el), el.get("attrs", ()), repl, el, end,
                       repl or tree.special(el))

    def start_tag(self, name, statics, repl, el, end, special=True):
        """*special*: the tag carries directives and may be wrapped."""
        self.inserted = max(self.inserted, len(
            [n for n in repl if n not in dict(statics)]))
        align = self.col + len(name) + 2
        if align >= self.wrap / 2:
            align = 4
        self.w("<" + name)

        def put(s):
            if not (self.wrap and special):
                self.w(" " + s)
            elif self.col >= align and self.col + 1 + len(s) > self.wrap:
                self.w("\n" + " " * align)
                self.bufs[-1].append(s)
                self.col = align + len(s)
            else:
                self.bufs[-1].append(" " + s)
                self.col += 1 + len(s)
        repl = dict(repl)
        todo = []
        for n, v in statics:
            if n in repl:
                todo.append((n, v, "replace") + repl.pop(n))
            else:
                todo.append((n, v, None, None, None, None))
        for n in sorted(repl):
            todo.append((n, None, "insert") + repl[n])
        for n, v, action, expr, xlat, msgid in todo:
            if action is None:
                put(n if v is None else '%s="%s"' % (n, v))
                continue
            if self.mode == "html" and n.lower() in BOOLEAN:
                b = self.eval(expr, el)
                if b is DEFAULT:
                    if action == "insert":
                        continue
                    v = v if v is None else unesc(v)
                elif b:
                    v = None
                else:
                    continue
            elif expr is not None:
                r = self.eval(expr, el)
                if r is DEFAULT:
                    if action == "insert":
                        continue
                    v = v if v is None else unesc(v)
                elif r is None:
                    continue
                else:
                    v = r
            elif v is not None:
                v = unesc(v)
            if v is None:
                v = n
            if xlat:
                if isinstance(v, Msg) and msgid is None:
                    v = self.trans_msg(v, el)
                else:
                    v = str(v)
                    t = self.trans(msgid or v, v, {}, el)
                    v = v if t is None else t
            elif isinstance(v, Msg):
                v = self.trans_msg(v, el)
            put("%s=%s" % (n, quote(str(v))))
        self.w(end)

    def content(self, el):
        c = el.get("content") or el.get("replace")
        if c:
            kind, expr = c
            v = self.eval(expr, el)
            if v is None:
                self.stat("nothing")
                return
            if v is DEFAULT:
                self.stat("default")
                if "script" in el:
                    raise AssertionError
                self.nodes(el.get("kids", ()))
                return
            xlat = "itrans" in el
            if kind == "structure":
                repl = el.get("attributes", ()) if "replace" in el else ()
                if xlat and not isinstance(v, Msg):
                    s = self.plain(v)
                    v = self.trans(s, s, {}, el)
                self.structure(v, el, repl)
            elif xlat and not isinstance(v, Msg):
                s = str(v)
                self.w(esc(self.trans(s, s, {}, el)))
            else:
                self.text(v, el)
            return
        if "itrans" in el:
            self.units.append({})
            self.bufs.append([])
            self.nodes(el.get("kids", ()))
            text = "".join(self.bufs.pop())
            mapping = self.units.pop()
            pre = self.mode == "html" and el["name"] == "pre"
            msgid = el["itrans"] or (text if pre else norm(text))
            if "idata" in el:
                d = self.data(el["idata"], el)
                if d:
                    mapping.update(d)
            self.w(self.trans(msgid, text, mapping, el))
            return
        if "script" in el:
            self.w(self.code(el))
            return
        self.nodes(el.get("kids", ()))

    def text(self, v, el):
        if isinstance(v, Msg):
            v = self.trans_msg(v, el)
        self.w(esc(self.plain(v)))

    def plain(self, v):
        if isinstance(v, list):           # markup used as text
            if v[0] == "h":
                return tree.fragment_text(v[1], self.mode)
            return v[1]
        return str(v)

    def structure(self, v, el, repl):
        self.fragments += 1
        if isinstance(v, Msg):
            v = self.trans_msg(v, el)
        if isinstance(v, list) and v[0] == "x":
            if self.strict or repl:
                self.stat("malformed")
                raise self.failure("OTHER", el)
            self.w(v[1])
            return
        if isinstance(v, list) and v[0] == "h":
            if not (self.strict or repl):
                self.w(tree.fragment_text(v[1], self.mode))
                return
            self.frag_repl = {n: (e, False, None) for n, e in repl}
            self.frag(v[1], el)
            return
        v = str(v)
        self.w(v)

    def frag(self, nodes, el):
        """Inserted markup: inert, TAL/METAL/i18n attributes disappear."""
        for k in nodes:
            if k["t"] == "text":
                self.w(k["s"])
                continue
            repl, self.frag_repl = self.frag_repl, {}
            name = tree.tagname(k)
            statics = [a for a in k.get("attrs", ()) if not a[0].startswith("xmlns:")]
            special = repl or tree.special(k) or any(
                a[0].startswith("xmlns:") for a in k.get("attrs", ()))
            if k.get("void"):
                self.start_tag(name, statics, repl, el,
                               " />" if k["void"] == 2 else ">", special)
                continue
            if self.mode == "xml" and not k.get("kids"):
                self.start_tag(name, statics, repl, el, "/>", special)
                continue
            self.start_tag(name, statics, repl, el, ">", special)
            self.frag(k.get("kids", ()), el)
            self.w("</%s>" % name)
