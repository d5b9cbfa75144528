"""C07: several threads rendering the same compiled templates."""
import copy

from .. import run, sched, shrink
from ..core import Check, digest
from .common import REAL, STUBS
from .history import alone, compile_group, difference, make_group, make_render, \
    observe


def make_schedule(rng):
    """Where to preempt: gaps between switches, and who continues."""
    style = rng.choice(["fine", "coarse", "mixed", "mixed", "few"])
    out = []
    n = {"fine": rng.choice([400, 1500]), "coarse": 60, "mixed": 150, "few": rng.choice([1, 2, 3, 5])}[style]
    for _ in range(n):
        if style == "fine":
            gap = rng.randint(1, 6)
        elif style == "coarse":
            gap = rng.randint(20, 300)
        elif style == "few":
            gap = rng.randint(1, 1500)
        else:
            gap = int(2 ** rng.uniform(0, 9))
        out.append([gap, rng.randrange(8)])
    return out


class Stream(run.Out):
    def __init__(self, point):
        run.Out.__init__(self)
        self.point = point

    def write(self, s):
        self.point("stream")
        run.Out.write(self, s)
        self.point("stream")


class C07(Check):
    id = "C07"
    technique = "deterministic simulation with fault injection: seeded thread " \
        "interleavings at line or instruction granularity, compared with each " \
        "rendering alone"
    real = REAL + ["CPython threads, one running at a time"]
    stubs = STUBS + ["thread scheduler (decides every switch)",
                     "locks created through the threading module"]
    runs = {"quick": 14000, "thorough": 120000}
    rule = ("a run counts if at least three preemptions really happened inside "
            "renderings; distinct by the sequence of (thread, code line, next "
            "thread) of its switches")
    states_are = "distinct (code line where preempted, kind of operation) points"

    def generate(self, rng):
        profiles = ["general", "struct", "metal", "nest", "i18n", "i18n", "error", "scope"]
        groups = []
        for _ in range(rng.choice([1, 1, 1, 2])):
            g = make_group(rng, profiles, size=rng.choice([6, 10, 16]))
            if g is None:
                return None
            groups.append(g)
        jobs = []
        for _ in range(rng.choice([2, 2, 3, 4] * 5 + [7])):
            i = rng.randrange(len(groups))
            mr = make_render(rng, groups[i])
            if mr is None:
                return None
            jobs.append({"group": i, "main": mr[0], "render": mr[1]})
        return {"groups": groups, "jobs": jobs, "schedule": make_schedule(rng),
                "opcodes": rng.random() < .3}

    def judge(self, case, v):
        groups = case["groups"]
        want = []
        for job in case["jobs"]:
            want.append(alone(groups[job["group"]], job["main"], job["render"]))
            if want[-1] is None:
                v.counts["compile failed"] += 1
                return
        try:
            programs = [compile_group(g) for g in groups]
        except Exception:
            v.counts["compile failed"] += 1
            return
        todo = []
        s = sched.Scheduler(todo, case["schedule"], case["opcodes"])
        for job in case["jobs"]:
            def work(job=job):
                mode = groups[job["group"]]["templates"][job["main"]]["mode"]
                it, ctx, stream = run.start(
                    programs[job["group"]], job["main"], mode, job["render"],
                    Stream(s.point), point=s.point)
                return run.finish(it, ctx, stream)
            todo.append(work)
        s.__init__(todo, case["schedule"], case["opcodes"])
        try:
            results = s.run()
        except sched.Stuck:
            v.counts["stuck outside the scheduler"] += 1
            return
        v.ticks = s.steps
        v.sig = digest(s.switches)
        v.nontrivial = sum(w not in ("end",) for _, w, _ in s.switches) >= 3
        v.counts["switches"] += len(s.switches)
        v.counts["threads"] += len(todo)
        v.faults["preemption"] += len(s.switches)
        for _, w, _ in s.switches:
            v.states.add(w)
        v.sample = {"threads": len(todo), "steps": s.steps,
                    "switches": len(s.switches), "first": s.switches[:4]}
        if s.deadlocked:
            return v.fail("deadlock", "all threads wait for each other")
        for i, r in enumerate(results):
            if not isinstance(r, run.Result):
                return v.fail("broken", "thread %d: %r" % (i, r))
            for at in r.fired:
                v.faults["%s fails" % at[0]] += 1
            d = difference(observe(r), want[i])
            if d:
                return v.fail(d[0], "thread %d: %s" % (i, d[1]))

    def reductions(self, case):
        yield from schedule_reductions(case)
        yield from shrink.items(case, "jobs")
        for i, st in enumerate(case["jobs"]):
            def get(c, i=i):
                return c["jobs"][i]["render"]
            yield from shrink.faults(case, get)
            for k in sorted(st["render"]["opts"]):
                c = copy.deepcopy(case)
                del c["jobs"][i]["render"]["opts"][k]
                yield c
        used = {st["group"] for st in case["jobs"]}
        for i in range(len(case["groups"])):
            if i not in used and len(case["groups"]) > 1:
                c = copy.deepcopy(case)
                del c["groups"][i]
                for st in c["jobs"]:
                    st["group"] -= st["group"] > i
                yield c
        for i, g in enumerate(case["groups"]):
            for small in shrink.templates(g):
                c = copy.deepcopy(case)
                c["groups"][i] = small
                yield c


def schedule_reductions(case):
    """Fewer switches; the steps of a dropped one go to the next."""
    sch = case["schedule"]
    n = len(sch)
    keep = n
    while keep > 1:
        keep //= 2
        yield dict(copy.deepcopy(case), schedule=copy.deepcopy(sch[:keep]))
    step = max(1, n // 2)
    while True:
        for at in range(0, n, step):
            gone = sum(g for g, p in sch[at:at + step])
            new = copy.deepcopy(sch[:at] + sch[at + step:])
            if at < len(new):
                new[at][0] += gone
            yield dict(copy.deepcopy(case), schedule=new)
        if step == 1:
            break
        step //= 2
