"""C14: the same in every process."""
import atexit
import json
import os
import random
import re
import subprocess
import sys

from .. import gen
from ..core import Verdict, digest
from ..model import Compiled, Model
from ..procs import HarnessError
from ..server import VARIANTS
from .common import ModelCheck, show_diff
from .rendering import describe

TAG = re.compile(r"<([\w:.-]+)((?:\s+[\w:.-]+(?:=\"[^\"]*\")?)*)\s*/?>")
ATTR = re.compile(r"([\w:.-]+)(?:=\"[^\"]*\")?")


def tags(out):
    return [(m.group(1), [n for n in ATTR.findall(m.group(2))
                          if not n.startswith("xmlns")]) for m in TAG.finditer(out)]


class C14(ModelCheck):
    id = "C14"
    technique = "deterministic simulation: the same seeded rendering in processes " \
        "that differ in hash seed, import and compile order, clock and heap"
    runs = {"quick": 14000, "thorough": 120000}
    rule = ("a run counts if some tag got at least two added attributes, or a macro "
            "of another file was used; distinct as in C01")
    states_are = ("distinct (most attributes added to one tag, files, mode, engine) "
                  "combinations")
    assumptions = ["Four process variants; nothing is assumed about other variants."]
    servers = None

    def generate(self, rng):
        return gen.make_case(rng, rng.choice(["general", "tal", "metal", "i18n",
                                              "struct"]),
                             nfaults=rng.choice([0, 0, 1]), attributes=.6,
                             iattrs=.3)

    # the code under test runs in the servers only

    def start(self):
        self.servers = []
        self.owner = os.getpid()
        for variant in VARIANTS:
            env = dict(os.environ, **variant)
            self.servers.append(subprocess.Popen(
                [sys.executable, "-B", "-P", "-m", "simtal.server"], env=env,
                stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True))
        atexit.register(self.stop)

    def stop(self):
        if self.servers and self.owner == os.getpid():
            for p in self.servers:
                p.stdin.close()
                p.wait()
            self.servers = None

    def run_seed(self, seed):
        case = self.generate(random.Random(seed))
        return None if case is None else self.run_case(case)

    def run_case(self, case):
        v = Verdict()
        try:
            self.judge(case, v)
        except HarnessError:
            raise
        except Exception as e:
            raise HarnessError("%s: %s" % (type(e).__name__, e))
        return v.pack()

    def judge(self, case, v):
        if self.servers is None or self.owner != os.getpid():
            self.start()
        line = json.dumps(case) + "\n"
        for p in self.servers:
            p.stdin.write(line)
            p.stdin.flush()
        got = [json.loads(p.stdout.readline()) for p in self.servers]
        m = Model(Compiled(case["templates"]), case["render"],
                  named=case["named"]).run(case["main"])
        self.measure(m, v)
        v.ticks *= len(got)
        v.states = {"%d %d %s %s" % (m.inserted, len(case["templates"]), m.mode,
                                     case["render"]["engine"])}
        v.nontrivial = m.inserted >= 2 or len(case["templates"]) > 1 and \
            m.stats.get("macro")
        v.sample = dict(describe(m), added_attributes=m.inserted)
        for g in got:
            if "harness" in g:
                raise HarnessError(g["harness"])
        first = got[0]
        v.sig = digest(first)
        v.counts["processes compared"] += len(got)
        for i, g in enumerate(got[1:], 1):
            if g == first:
                continue
            for k in ("compile", "hang", "crash", "outcome", "out", "log"):
                if g.get(k) != first.get(k):
                    a, b = g.get(k), first.get(k)
                    return v.fail("differs", "process %s: %s: %s" % (
                        VARIANTS[i], k, show_diff(a, b) if k == "out" else
                        "%s / %s" % (str(a)[:300], str(b)[:300])))
        if first.get("outcome") == ["ok"] == m.outcome:
            a, b = tags(first["out"]), tags(m.out)
            if [t[0] for t in a] == [t[0] for t in b]:
                for (name, x), (_, y) in zip(a, b):
                    if x != y and sorted(x) == sorted(y):
                        return v.fail("order", "attributes of <%s>: %s, expected %s"
                                      % (name, x, y))
                v.counts["tags with order compared"] += len(a)
