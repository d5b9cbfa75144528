"""A process with its own hash seed, import order, clock and heap layout.

Reads cases as JSON lines, answers with what it observed.  Each case runs in a
forked child.
"""
import json
import os
import random
import sys
import time

VARIANTS = [
    # hash seed, import order, clock offset, heap noise, compile order
    {"PYTHONHASHSEED": "0", "SIMTAL_ORDER": "", "SIMTAL_CLOCK": "0",
     "SIMTAL_NOISE": "0", "SIMTAL_COMPILE": "sorted"},
    {"PYTHONHASHSEED": "1", "SIMTAL_ORDER": "a", "SIMTAL_CLOCK": "1e8",
     "SIMTAL_NOISE": "1000", "SIMTAL_COMPILE": "reverse"},
    {"PYTHONHASHSEED": "4242", "SIMTAL_ORDER": "b", "SIMTAL_CLOCK": "-5e8",
     "SIMTAL_NOISE": "7777", "SIMTAL_COMPILE": "twice"},
    {"PYTHONHASHSEED": "99", "SIMTAL_ORDER": "c", "SIMTAL_CLOCK": "12345",
     "SIMTAL_NOISE": "31", "SIMTAL_COMPILE": "others"},
]


def main():
    offset = float(os.environ.get("SIMTAL_CLOCK", "0"))
    real = time.time
    time.time = lambda: real() + offset
    noise = random.Random(os.environ.get("SIMTAL_NOISE"))
    heap = [bytearray(noise.randrange(1, 300))
            for _ in range(int(os.environ.get("SIMTAL_NOISE", "0")))]
    from . import procs, run
    from .checks.common import modes, plain
    from .model import Compiled
    how = os.environ.get("SIMTAL_COMPILE", "sorted")

    def do(case):
        c = Compiled(case["templates"])
        names = sorted(c.text)
        if how == "reverse":
            names.reverse()
        texts = {f: c.text[f] for f in names}
        kind = case["render"]["engine"]
        try:
            if how == "others":
                run.compile_text('<p a="1" tal:attributes="z k:1; a k:2">x</p>',
                                 "html", kind)
            if how == "twice":
                run.compile_all(texts, modes(c), kind, case["named"])
            programs = run.compile_all(texts, modes(c), kind, case["named"])
        except Exception as e:
            return {"compile": type(e).__name__}
        r = run.render(programs, case["main"], c.tpl[case["main"]]["mode"],
                       case["render"])
        return {"outcome": r.outcome, "out": r.out,
                "log": [plain(x) for x in r.log]}

    for line in sys.stdin:
        try:
            res = procs.in_child(do, json.loads(line))
            ans = res[1] if res[0] == "ok" else {"hang": 1}
        except procs.Crash as e:
            ans = {"crash": str(e).strip().rsplit("\n", 1)[-1]}
        except procs.HarnessError as e:
            ans = {"harness": str(e)}
        sys.stdout.write(json.dumps(ans) + "\n")
        sys.stdout.flush()
    del heap


if __name__ == "__main__":
    main()
