"""C09: XML templates from streams."""
import copy
import os
from xml.parsers import expat

from .. import boot, gen, procs, run, shrink
from ..core import Check, digest
from ..model import Compiled, Model, TooMuch
from ..simfs import Stream
from ..values import BASE_EXC, EXC, make_exception
from .common import REAL, STUBS
from .history import difference, observe

ENCODINGS = [("utf-8", None), ("utf-8", "utf-8"), ("utf-8", "UTF-8"),
             ("utf-8-sig", None), ("utf-16", None), ("utf-16", "utf-16"),
             ("utf-16-be-bom", None), ("iso-8859-1", "iso-8859-1"),
             ("us-ascii", "us-ascii"), ("arg:iso-8859-1", None)]
CHARS = {"iso-8859-1": "é×ß", "us-ascii": "~x", "": "é×日本€😀"}
EXOTIC = ["<![CDATA[a]]>", "<![CDATA[<&>]]>", "<?pi some data?>", "&#233;",
          "&#x41;", "<!-- c - c -->", "]]&gt;", "\r\n", "\t"]


def encode(text, enc):
    codec, decl = enc
    if decl:
        text = '<?xml version="1.0" encoding="%s"?>' % decl + \
            (text[text.index("?>") + 2:] if text.startswith("<?xml") else "\n" + text)
    if codec == "utf-16-be-bom":
        return b"\xfe\xff" + text.encode("utf-16-be")
    if codec.startswith("arg:"):
        codec = codec[4:]
    return text.encode(codec)


def plain_expat(data, encoding):
    """Does expat by itself accept these bytes?"""
    p = expat.ParserCreate(encoding, " ")
    try:
        p.Parse(data, True)
    except (expat.ExpatError, ValueError, LookupError):
        return False
    return True


class C09(Check):
    id = "C09"
    technique = "deterministic simulation with fault injection: seeded chunking, " \
        "encodings, failing and truncated reads, compared with parsing the whole"
    real = REAL
    stubs = ["input stream, file and URL (in-memory, chunks and failures as the case "
             "says)", "expression engine", "output stream"]
    runs = {"quick": 50000, "thorough": 400000}
    rule = ("a run counts if the input came in at least three portions, or was "
            "truncated, damaged or a read failed; distinct by bytes, portions and "
            "outcome")
    states_are = ("distinct (byte context around a portion boundary: last byte, "
                  "next byte classes, position inside markup or text)")

    def generate(self, rng):
        enc = list(rng.choice(ENCODINGS))
        g = gen.Gen(rng, rng.choice(["general", "tal", "metal", "i18n"]),
                    mode="xml", libs=0 if rng.random() < .8 else None,
                    size=rng.choice([4, 8, 16]),
                    entity=0 if enc[0] == "us-ascii" else .2)
        main = g.build()
        chars = CHARS.get(enc[0].replace("arg:", ""), CHARS[""])
        exotic = rng.random() < .3
        extra = 0
        for f in g.templates:
            for kids in shrink.slots(g.templates[f]["kids"]):
                for k in kids:
                    if k["t"] == "text" and k["s"].startswith("w") and \
                            rng.random() < .5:
                        k["s"] += "".join(rng.choice(chars)
                                          for _ in range(rng.choice([1, 2, 5])))
                        if exotic and rng.random() < .5:
                            k["s"] += rng.choice(EXOTIC)
                            extra = 1
                        if rng.random() < .06:
                            k["s"] += "long" * rng.choice([100, 600, 2500] * 8 + [20000])
        case = {"templates": g.templates, "main": main,
                "render": g.render(), "enc": enc, "exotic": extra,
                "via": rng.choice(["stream", "stream", "file", "url", "fragment"])}
        c = Compiled(g.templates)
        try:
            Model(c, case["render"]).run(main)
        except TooMuch:
            return None
        data = encode(c.text[main], enc)
        style = rng.choice(["one", "tiny", "mixed", "mixed", "split", "whole"])
        if style == "one":
            sizes = [1]
        elif style == "tiny":
            sizes = [rng.randint(1, 4) for _ in range(50)]
        elif style == "mixed":
            sizes = [int(2 ** rng.uniform(0, 11)) for _ in range(40)]
        elif style == "split":
            sizes = [rng.randint(1, max(1, len(data))), 1 << 20]
        else:
            sizes = [1 << 20]
        case["sizes"] = sizes
        r = rng.random()
        if r < .2:
            case["cut"] = rng.randrange(len(data) + 1)
        elif r < .35:
            case["fail"] = [rng.randrange(len(data) + 1),
                            rng.choice(EXC + BASE_EXC + ["OSError"] * 10)]
        elif r < .45:
            case["damage"] = [rng.randrange(len(data)), rng.randrange(256)]
        return case

    def judge(self, case, v):
        c = Compiled(case["templates"])
        main = case["main"]
        data = encode(c.text[main], case["enc"])
        if "cut" in case:
            data = data[:case["cut"]]
            v.faults["input truncated"] += 1
        if "damage" in case:
            at, byte = case["damage"]
            data = data[:at] + bytes([byte]) + data[at + 1:]
            v.faults["input byte changed"] += 1
        encoding = case["enc"][0][4:] if case["enc"][0].startswith("arg:") else None
        whole = procs.result(self.whole, case, c, data, encoding)
        fail_at = exc = None
        if "fail" in case:
            fail_at = case["fail"][0]
            exc = make_exception(case["fail"][1], "read")
        stream = Stream(data, case["sizes"], fail_at, exc)
        error = program = None
        p = self.parser(c, main, case, encoding)
        try:
            self.parse(p, case["via"], stream)
            program = p.getCode()
        except BaseException as e:
            error = e
        v.ticks = stream.reads
        v.counts["portions"] += stream.reads
        v.counts["via " + case["via"]] += 1
        v.counts["bytes"] += len(data)
        self.boundaries(stream, data, v)
        v.nontrivial = stream.reads >= 3 or "cut" in case or "fail" in case or \
            "damage" in case
        v.sample = {"bytes": len(data), "portions": stream.reads,
                    "encoding": case["enc"], "via": case["via"],
                    "result": type(error).__name__ if error else "compiled"}
        v.sig = digest(data.hex(), case["sizes"][:10], case["via"],
                       type(error).__name__)
        if stream.failed:
            v.faults["read fails with %s" % case["fail"][1]] += 1
            if error is not exc:
                v.fail("read failure", "the failing read surfaced as %r" % (error,))
            return
        if fail_at is not None:
            # the parser found the document wrong, or never read that far
            v.counts["read failure not reached"] += 1
        accepted = plain_expat(data, encoding)
        if not accepted:
            v.counts["not well-formed"] += 1
            if error is None:
                v.fail("accepted", "input that is not a complete document was "
                       "compiled without an error")
            return
        if whole[0] == "error":
            if error is None:
                v.fail("accepted", "in portions: compiled; at once: %s" % whole[1])
            elif type(error).__name__ != whole[1]:
                v.fail("error", "in portions: %r, at once: %s" % (error, whole[1]))
            return
        if error is not None:
            v.fail("refused", "in portions: %r; at once: compiled" % (error,))
            return
        if stream.pos < len(data):
            v.fail("partial", "compiled after %d of %d bytes" % (stream.pos, len(data)))
            return
        got = self.show(case, c, program)
        d = difference(got, whole[1])
        if d:
            v.fail("program", "%s: %s" % d)
            return
        v.counts["programs compared"] += 1
        if not case["exotic"] and not case["enc"][1] and "cut" not in case and \
                "damage" not in case:
            m = Model(c, case["render"]).run(main)
            if got["outcome"] != m.outcome or (m.outcome == ["ok"]
                                               and got["out"] != m.out):
                v.fail("model", "rendered %r, expected %r" % (got["out"], m.out))

    def boundaries(self, stream, data, v):
        pos = 0
        for i in range(min(stream.reads, 400)):
            size = stream.sizes[min(i, len(stream.sizes) - 1)]
            pos += min(size, 2048)
            if pos >= len(data):
                break
            inside = data.rfind(b"<", 0, pos) > data.rfind(b">", 0, pos)
            v.states.add("%s|%s|%s" % (kind(data[pos - 1]), kind(data[pos]),
                                       "tag" if inside else "text"))

    def parser(self, c, main, case, encoding):
        comp = run.compiler(case["render"]["engine"])
        g = run.TALGenerator(comp, source_file=main)
        return run.TALParser(g, encoding)

    def parse(self, p, via, stream):
        if via == "stream":
            p.parseStream(stream)
        elif via == "file":
            with boot.simulated_fs(OneFile(stream)):
                p.parseFile("main.pt")
        elif via == "url":
            with boot.simulated_fs(OneFile(stream)):
                p.parseURL("http://sim/main.pt")
        else:
            while True:
                s = stream.read(4096)
                p.parseFragment(s, not s)
                if not s:
                    break

    def whole(self, case, c, data, encoding):
        p = self.parser(c, case["main"], case, encoding)
        try:
            p.parseString(data)
            program = p.getCode()
        except Exception as e:
            return ["error", type(e).__name__]
        return ["ok", self.show(case, c, program)]

    def show(self, case, c, program):
        main = case["main"]
        texts = {f: t for f, t in c.text.items() if f != main}
        modes = {f: "xml" for f in c.text}
        programs = run.compile_all(texts, modes, case["render"]["engine"], True)
        programs[main] = program
        return observe(run.render(programs, main, "xml", case["render"]))

    def reductions(self, case):
        for k in ("cut", "fail", "damage"):
            if k in case:
                c = copy.deepcopy(case)
                del c[k]
                yield c
        for via in ("stream",):
            if case["via"] != via:
                yield dict(copy.deepcopy(case), via=via)
        yield from shrink.items(case, "sizes")
        if "cut" not in case and "damage" not in case and "fail" not in case:
            yield from shrink.templates(case)
            yield from shrink.values(case, lambda c: c["render"])


def kind(b):
    ch = chr(b)
    if b >= 128:
        return "lead" if b >= 0xc0 else "cont"
    if ch.isalnum():
        return "a"
    return ch if ch in "<>&;\"'=/!?[]-: \n\r" else "."


class OneFile:
    def __init__(self, stream):
        self.stream = stream

    def open(self, file, mode="r", *args, **kw):
        return self.stream

    def urlopen(self, url, *args, **kw):
        return self.stream

    def stat(self, path):
        return os.stat_result((0o100444, 1, 1, 1, 0, 0, 1, 0, 0, 0))
