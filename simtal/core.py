"""The runner: seeded runs, verdicts, shrinking, replay files, evidence."""
import collections
import hashlib
import json
import os
import random
import subprocess
import sys
import time
import traceback

from . import procs, shrink

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(VERIF, "known_findings.txt")

DEFAULT_ASSUMPTIONS = [
    "Sampled, not exhaustive: the claim covers the seeds that were run.",
    "Single CPython build (the one in the sandbox).",
]


def digest(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(json.dumps(p, sort_keys=True, default=str).encode())
        h.update(b"\0")
    return h.hexdigest()[:16]


class Verdict:
    """What one simulated run showed."""

    def __init__(self):
        self.violation = None         # [kind, detail]
        self.sig = None               # identity of the execution
        self.nontrivial = False
        self.ticks = 0                # simulated time: calls and steps
        self.counts = collections.Counter()
        self.faults = collections.Counter()
        self.states = set()           # states or interleavings seen
        self.sample = None

    def fail(self, kind, detail):
        if self.violation is None:
            self.violation = [kind, str(detail)[:2000]]

    def pack(self):
        return {"violation": self.violation, "sig": self.sig,
                "nontrivial": bool(self.nontrivial), "ticks": self.ticks,
                "counts": dict(self.counts), "faults": dict(self.faults),
                "states": sorted(self.states), "sample": self.sample}


class Check:
    id = None
    level = "exploration"
    technique = ""
    note = ("Seeded random exploration; no claim beyond the seeds run. Evidence "
            "gives runs, faults and distinct executions.")
    rule = ""
    states_are = ""
    real = []
    stubs = []
    assumptions = []
    runs = {"quick": 60000, "thorough": 400000}
    wall = {"quick": 240, "thorough": 840}
    cpu = procs.CPU_LIMIT
    state_cap = 200000

    def generate(self, rng):
        raise NotImplementedError

    def judge(self, case, v):
        raise NotImplementedError

    def reductions(self, case):
        return shrink.render_case(case)

    def extra(self):
        return {}

    # one run

    def _run_case(self, case):
        v = Verdict()
        try:
            self.judge(case, v)
        except procs.Hang:
            v.fail("hang", "no end within %d s of CPU time" % procs.CPU_LIMIT)
        except Exception as e:
            if not procs.theirs(e):
                raise
            text = "".join(traceback.format_exception(e)).strip()
            v.fail("crash", "unexpected: " + text.rsplit("\n", 1)[-1])
        return v.pack()

    def _run_seed(self, seed):
        case = self.generate(random.Random(seed))
        if case is None:
            return None
        return self._run_case(case)

    def run_case(self, case):
        """Judge a case in a process of its own."""
        r = procs.in_child(self._run_case, case, cpu=self.cpu)
        if r[0] == "hang":
            v = Verdict()
            v.fail("hang", "no end within %d s of CPU time" % self.cpu)
            return v.pack()
        return r[1]

    def run_seed(self, seed):
        r = procs.in_child(self._run_seed, seed, cpu=self.cpu)
        if r[0] == "hang":
            v = Verdict()
            v.fail("hang", "no end within %d s of CPU time" % self.cpu)
            return v.pack()
        return r[1]


def seed_of(check, base, i):
    return "%s:%s:%d" % (base, check.id, i)


def known_findings(prop):
    out = []
    try:
        with open(KNOWN) as f:
            for line in f:
                # open: property=<id> kind=<kind> | <what fails>
                if line.startswith("open: property=%s " % prop):
                    rest = line.split(" ", 2)[2]
                    kind, what = rest.split("|", 1)
                    out.append((kind.strip()[len("kind="):], what.strip()))
    except FileNotFoundError:
        pass
    return out


def main(check, args):
    if args[:1] == ["--replay"]:
        return replay(check, args[1])
    if args[:1] == ["--seed"]:
        return one(check, args[1])
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    base = int(os.environ.get("VERIF_SEED", "1"))
    count = int(os.environ.get("SIMTAL_RUNS", check.runs[tier]))
    ncpu = int(os.environ.get("SIMTAL_WORKERS", min(8, os.cpu_count() or 1)))
    t0 = time.monotonic()
    deadline = t0 + float(os.environ.get("SIMTAL_WALL", check.wall[tier]))

    def job(i):
        return check.run_seed(seed_of(check, base, i))

    totals = collections.Counter()
    faults = collections.Counter()
    sigs = set()
    states = set()
    samples = []
    order = []
    done = discarded = ticks = nontrivial = 0
    bad = {}
    seen = set()
    known = known_findings(check.id)
    known_hit = {}
    error = None
    for i, (status, res) in procs.workers(ncpu, count, job, deadline):
        seen.add(i)
        if status == "error":
            error = (i, res)
            break
        if res is None:
            discarded += 1
            continue
        done += 1
        totals.update(res["counts"])
        faults.update(res["faults"])
        ticks += res["ticks"]
        order.append((i, res["sig"]))
        if res["nontrivial"]:
            nontrivial += 1
            sigs.add(res["sig"])
            if len(samples) < 5 and res["sample"] is not None:
                samples.append({"seed": seed_of(check, base, i),
                                "shows": res["sample"]})
        if len(states) < check.state_cap:
            states.update(res["states"])
        if res["violation"]:
            kind = res["violation"][0]
            hit = [w for k, w in known if k == kind]
            if hit:
                known_hit[kind] = hit[0]
                continue
            bad[i] = res
        if bad:
            first = min(bad)
            # wait for earlier runs, so that the first one is reported
            if all(j in seen for j in range(first)):
                break
    if error:
        sys.stderr.write("run %d (seed %s) broke the harness:\n%s\n"
                         % (error[0], seed_of(check, base, error[0]), error[1]))
        return 2
    wall = time.monotonic() - t0
    violations = len(bad)
    coverage = {
        "evaluations": done,
        "distinct_nontrivial": len(sigs),
        "rule": check.rule,
        "samples": samples,
        "nontrivial": nontrivial,
        "discarded_before_running": discarded,
        "planned_runs": count,
        "seeds": "%s .. %s" % (seed_of(check, base, 0),
                               seed_of(check, base, max(seen) if seen else 0)),
        "simulated_runs_per_hour": int(done / wall * 3600) if wall else 0,
        "simulated_time_ticks": ticks,
        "simulated_time_is": "engine, stream, file and scheduler steps; nothing "
                             "in these runs waits for wall clock time",
        "faults_injected": dict(sorted(faults.items())),
        "faults_injected_total": sum(faults.values()),
        "distinct_states": len(states),
        "distinct_states_are": check.states_are,
        "ran_real": check.real,
        "ran_stub": check.stubs,
        "counts": dict(sorted(totals.items())),
        "execution_digest": digest(sorted(order)),
    }
    coverage.update(check.extra())
    evidence = {
        "property": check.id, "tier": tier, "seed": base, "level": check.level,
        "coverage": coverage,
        "assumptions": DEFAULT_ASSUMPTIONS + list(check.assumptions),
        "wall_s": round(wall, 2), "violations": violations,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    path = os.path.join(VERIF, "evidence", check.id + ".json")
    with open(path, "w") as f:
        json.dump(evidence, f, indent=1, sort_keys=True)
        f.write("\n")
    for kind, what in sorted(known_hit.items()):
        print("KNOWN-FINDING: property=%s %s" % (check.id, what))
    if not bad:
        if done < max(20, count // 50):
            sys.stderr.write("only %d of %d runs completed\n" % (done, count))
            return 2
        print("%s: held in %d runs, %d distinct; %d faults; %.1f s"
              % (check.id, done, len(sigs), sum(faults.values()), wall))
        return 0
    i = min(bad)
    return report(check, base, i, bad[i])


def report(check, base, i, res):
    seed = seed_of(check, base, i)
    kind = res["violation"][0]
    case = check.generate(random.Random(seed))
    budget = float(os.environ.get("SIMTAL_SHRINK", "60"))
    try:
        small, tried = shrink.shrink(check, case, kind, time.monotonic() + budget)
    except Exception as e:          # never lose a finding to the shrinker
        sys.stderr.write("shrinking failed: %r\n" % e)
        small, tried = case, 0
    final = check.run_case(small)
    if not final["violation"]:
        small, final = case, res
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    path = os.path.join(VERIF, "replays",
                        "%s-%s-%d.json" % (check.id, base, i))
    with open(path, "w") as f:
        json.dump({"property": check.id, "seed": seed, "case": small,
                   "violation": final["violation"], "sig": final["sig"],
                   "shrink_attempts": tried}, f, indent=1, sort_keys=True)
        f.write("\n")
    # the replay must reproduce, in a process started from nothing
    again = subprocess.run(
        [sys.executable, "-B", "-P", "-m", "simtal", check.id, "--replay", path],
        cwd="/", capture_output=True, text=True)
    state = {1: "reproduced"}.get(again.returncode, "NOT reproduced: %s%s" % (
        again.stdout[-500:], again.stderr[-500:]))
    print("%s: seed %s: %s" % (check.id, seed, final["violation"][0]))
    print("  " + final["violation"][1].replace("\n", "\n  "))
    print("  replay in a new process: " + state)
    print("VIOLATION property=%s replay=%s" % (check.id, path))
    return 1


def replay(check, path):
    with open(path) as f:
        data = json.load(f)
    res = check.run_case(data["case"])
    if not res["violation"]:
        print("replay: no violation")
        return 0
    same = (res["violation"] == data["violation"] and res["sig"] == data["sig"])
    print("replay: %s: %s" % tuple(res["violation"]))
    if not same:
        print("replay: differs from what was recorded: %s" % data["violation"])
        return 3
    print("VIOLATION property=%s replay=%s" % (check.id, path))
    return 1


def one(check, seed):
    case = check.generate(random.Random(seed))
    json.dump(case, sys.stdout, indent=1, sort_keys=True)
    print()
    if case is not None:
        res = check.run_case(case)
        print(res)
        return 1 if res["violation"] else 0
    return 0
