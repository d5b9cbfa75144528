"""Templates as JSON trees, and their text.

A node is either ``{"t": "text", "s": raw}`` or an element::

    {"t": "el", "n": unique number, "name": "b", "ns": ""|"tal"|"metal"|"i18n",
     "attrs": [[name, value], ...], "kids": [...],
     # directives, all optional
     "define": [[scope, name, expr], ...], "cond": expr, "repeat": [name, expr],
     "omit": "" or expr, "attributes": [[name, expr], ...],
     "content"/"replace": [kind, expr], "onerror": [kind, expr],
     "script": code id, "lang": its language,
     "use": expr, "defmacro": name, "extend": expr, "defslot": s, "fillslot": s,
     "idomain": d, "itrans": msgid or "", "iname": n, "idata": expr,
     "iattrs": [[attr, msgid or None], ...], "isource"/"itarget": language,
     # spelling
     "void": 1|2 (<br> or <br />), "nl": attributes on lines of their own,
     "rev": directives in reverse order, "un": unprefixed on namespace elements,
     "alias": {"tal": prefix declared here and used from here on, ...},
     "implied": no end tag (HTML; no directives), "selfclose": <b />,
     "up": upper case (HTML), "q": single quotes, "sp": white space in values,
     "semi": lists end with a semicolon}

Static attributes are given as they are spelled, with entities.

A template is ``{"mode": "html"|"xml", "kids": [...], "decl": bool or text}``.
"""
import re

TAL = "http://xml.zope.org/namespaces/tal"
METAL = "http://xml.zope.org/namespaces/metal"
I18N = "http://xml.zope.org/namespaces/i18n"
XMLNS = (' xmlns:tal="%s" xmlns:metal="%s" xmlns:i18n="%s"'
         % (TAL, METAL, I18N))

TALDIRS = ("define", "cond", "repeat", "omit", "attributes", "content",
           "replace", "onerror", "script")
METALDIRS = ("use", "defmacro", "extend", "defslot", "fillslot")
I18NDIRS = ("idomain", "itrans", "iname", "idata", "iattrs", "isource", "itarget")
LANG = "text/server-python"
URIS = {"tal": TAL, "metal": METAL, "i18n": I18N}
DIRS = TALDIRS + METALDIRS + I18NDIRS


def text(s):
    return {"t": "text", "s": s}


def directives(el):
    out = []
    get = el.get
    semi = ";" if get("semi") else ""
    if "define" in el:
        out.append(("tal:define", "; ".join(
            (sc + " " if sc else "") + n + " " + e
            for sc, n, e in el["define"]) + semi))
    if "cond" in el:
        out.append(("tal:condition", el["cond"]))
    if "repeat" in el:
        out.append(("tal:repeat", "%s %s" % tuple(el["repeat"])))
    if "omit" in el:
        out.append(("tal:omit-tag", el["omit"]))
    if "attributes" in el:
        out.append(("tal:attributes", "; ".join(
            "%s %s" % (n.upper() if get("up") else n, e)
            for n, e in el["attributes"]) + semi))
    for d, a in (("content", "tal:content"), ("replace", "tal:replace"),
                 ("onerror", "tal:on-error")):
        if d in el:
            kind, e = el[d]
            out.append((a, (kind + " " if kind else "") + e))
    for d, a in (("use", "metal:use-macro"), ("defmacro", "metal:define-macro"),
                 ("extend", "metal:extend-macro"), ("defslot", "metal:define-slot"),
                 ("fillslot", "metal:fill-slot"), ("idomain", "i18n:domain"),
                 ("itrans", "i18n:translate"), ("iname", "i18n:name"),
                 ("idata", "i18n:data"), ("isource", "i18n:source"),
                 ("itarget", "i18n:target")):
        if d in el:
            out.append((a, el[d]))
    if "iattrs" in el:
        out.append(("i18n:attributes", "; ".join(
            (n.upper() if get("up") else n) + (" " + m if m else "")
            for n, m in el["iattrs"]) + semi))
    if get("rev"):
        out.reverse()
    return out


class Writer:
    def __init__(self):
        self.out = []
        self.line = 1
        self.col = 0
        self.pos = {}
        self.prefix = {"tal": "tal", "metal": "metal", "i18n": "i18n"}

    def put(self, s):
        self.out.append(s)
        i = s.rfind("\n")
        if i < 0:
            self.col += len(s)
        else:
            self.line += s.count("\n")
            self.col = len(s) - i - 1

    def nodes(self, kids, mode):
        for k in kids:
            if k["t"] == "text":
                self.put(k["s"])
            else:
                self.el(k, mode)

    def el(self, el, mode, extra=""):
        self.pos[el.get("n")] = (self.line, self.col)
        prefix = self.prefix
        if "alias" in el:
            self.prefix = dict(prefix, **el["alias"])
        self.tag(el, mode, extra)
        self.prefix = prefix

    def tag(self, el, mode, extra):
        name = el["name"]
        if el.get("ns"):
            name = self.prefix[el["ns"]] + ":" + name
        sep = "\n  " if el.get("nl") else " "
        q = "'" if el.get("q") else '"'
        up = (lambda s: s.upper()) if el.get("up") and mode == "html" else str
        name = up(name)
        s = "<" + name + extra
        if "script" in el:
            s += ' type="%s"' % el.get("lang", LANG)
        for n, p in sorted(el.get("alias", {}).items()):
            s += sep + 'xmlns:%s="%s"' % (p, URIS[n])
        for n, v in el.get("attrs", ()):
            s += sep + up(n) + ("" if v is None else "=" + q + v + q)
        for n, v in directives(el):
            ns, n = n.split(":")
            if not (el.get("un") and ns == el.get("ns")):
                n = self.prefix[ns] + ":" + n
            if el.get("sp") and v and n.split(":")[-1] not in (
                    "use-macro", "extend-macro", "translate", "name", "domain",
                    "source", "target") and not (
                        el.get("semi") and n.endswith("attributes")):
                v = "\n " + v + " "
            s += sep + up(n) + "=" + q + v + q
        kids = el.get("kids", ())
        if el.get("void"):
            self.put(s + (" />" if el["void"] == 2 else ">"))
            return
        if not kids and el.get("selfclose"):
            self.put(s + "/>")
            return
        self.put(s + ">")
        if "script" in el:
            self.put(el.get("source") or "code %s\n" % el["script"])
        else:
            self.nodes(kids, mode)
        if not el.get("implied"):
            self.put("</%s>" % name)


def special(el):
    """Does the tag carry anything that is not simply output?"""
    return "alias" in el or "root" in el or any(d in el for d in DIRS)


def tagname(el):
    return (el["ns"] + ":" if el.get("ns") else "") + el["name"]


def declaration(tpl):
    decl = tpl.get("decl")
    if isinstance(decl, str) or not decl:
        return decl or ""
    return ('<?xml version="1.0"?>\n' if tpl["mode"] == "xml"
            else "<!DOCTYPE html>\n")


def serialize(tpl):
    """Return (text, {element number: (line, column)})."""
    w = Writer()
    w.put(declaration(tpl))
    if tpl["mode"] == "xml":
        root = tpl["kids"]
        assert len(root) == 1 and root[0]["t"] == "el", "one root in XML"
        w.el(root[0], "xml", XMLNS)
    else:
        w.nodes(tpl["kids"], "html")
    return "".join(w.out), w.pos


def fragment_text(nodes, mode="html"):
    w = Writer()
    w.nodes(nodes, mode)
    return "".join(w.out)


_ws = re.compile(r"(?s)^(.*?)(\r?\n[ \t]*)\Z")


def annotate(tpl, file):
    """Derive what the model needs: enclosing file, lexical domain, the
    whitespace that belongs to a repeated element, the text left over, and
    the fillers of each macro use.  Returns the macros of the file."""
    macros = {}

    def walk(kids, domain, use, lang=False, parent=None):
        pend = []
        for k in kids:
            if k["t"] == "text":
                k["_s"] = k["s"]
                pend.append(k)
                continue
            k["_ws"] = ""
            if "repeat" in k and pend:
                whole = "".join(p["_s"] for p in pend)
                m = _ws.match(whole)
                if m:
                    k["_ws"] = m.group(2)
                    n = len(m.group(2))
                    for p in reversed(pend):
                        c = min(n, len(p["_s"]))
                        p["_s"] = p["_s"][:len(p["_s"]) - c]
                        n -= c
            pend = []
            if k.get("implied") and (parent, k["name"]) not in (
                    ("ul", "li"), ("div", "p")):
                raise ValueError("end tag implied by what?")
            k["_file"] = file
            d = k.get("idomain") or domain
            k["_dom"] = d
            l = k["_lang"] = lang or "isource" in k or "itarget" in k
            if "defmacro" in k and use is None:
                macros.setdefault(k["defmacro"], k)
            inner = use
            if use is not None and "fillslot" in k:
                use["_slots"][k["fillslot"]] = k
                inner = None
            if inner is None and ("use" in k or "extend" in k):
                k["_slots"] = {}
                inner = k
            rest = walk(k.get("kids", ()), d, inner, l, k["name"])
            if k.get("implied"):
                # the end tag goes before white space
                k["_tail"] = ""
                for p in reversed(rest):
                    s = p["_s"].rstrip()
                    k["_tail"] = p["_s"][len(s):] + k["_tail"]
                    p["_s"] = s
                    if s:
                        break
        return pend
    pre = text(declaration(tpl))
    walk([pre] + tpl["kids"], "default", None)
    tpl["_pre"] = pre
    return macros
