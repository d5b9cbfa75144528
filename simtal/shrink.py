"""Making a failing case smaller while it keeps failing the same way."""
import copy
import json
import time

from . import procs


def shrink(check, case, kind, deadline):
    tried = 0

    def fails(c):
        try:
            res = check.run_case(c)
        except procs.HarnessError:
            return False              # not a meaningful case any more
        return bool(res["violation"]) and res["violation"][0] == kind

    progress = True
    while progress and time.monotonic() < deadline:
        progress = False
        for c in check.reductions(case):
            if time.monotonic() > deadline:
                break
            tried += 1
            if size(c) < size(case) and fails(c):
                case = c
                progress = True
                break
    return case, tried


def size(case):
    return len(json.dumps(case))


def slots(nodes):
    """Every kids list below nodes, outermost first."""
    yield nodes
    for k in nodes:
        if k["t"] == "el" and "kids" in k:
            yield from slots(k["kids"])


def path_lists(case):
    for f in sorted(case["templates"]):
        n = sum(1 for _ in slots(case["templates"][f]["kids"]))
        for i in range(n):
            yield f, i


def kids_at(case, f, i):
    for j, l in enumerate(slots(case["templates"][f]["kids"])):
        if j == i:
            return l


DROP = ("define", "cond", "repeat", "omit", "attributes", "content", "replace",
        "onerror", "itrans", "iname", "idata", "iattrs", "idomain", "use",
        "extend", "defslot", "attrs", "nl", "rev", "un", "implied", "selfclose", "alias",
        "up", "q", "sp", "semi", "isource", "itarget")


def templates(case):
    """Smaller versions of a case's templates."""
    for f in sorted(case["templates"]):
        if f != case.get("main") and len(case["templates"]) > 1:
            c = copy.deepcopy(case)
            del c["templates"][f]
            yield c
    for f, i in list(path_lists(case)):
        l = kids_at(case, f, i)
        step = len(l)
        while step >= 1:
            for at in range(0, len(l), step):
                c = copy.deepcopy(case)
                del kids_at(c, f, i)[at:at + step]
                yield c
            step //= 2
        for at, k in enumerate(l):
            if k["t"] == "el" and k.get("kids"):
                c = copy.deepcopy(case)
                kids_at(c, f, i)[at:at + 1] = copy.deepcopy(k["kids"])
                yield c
    for f, i in list(path_lists(case)):
        for at, k in enumerate(kids_at(case, f, i)):
            if k["t"] != "el":
                continue
            for d in DROP:
                if d in k:
                    c = copy.deepcopy(case)
                    del kids_at(c, f, i)[at][d]
                    yield c
            for d in ("define", "attributes", "attrs", "iattrs"):
                if len(k.get(d, ())) > 1:
                    for j in range(len(k[d])):
                        c = copy.deepcopy(case)
                        del kids_at(c, f, i)[at][d][j]
                        yield c


def values(case, render):
    """Smaller versions of a render's value table and options; *render* finds
    the render in a copy."""
    r = render(case)
    for key in sorted(r["values"]):
        specs = r["values"][key]
        c = copy.deepcopy(case)
        del render(c)["values"][key]
        yield c
        if len(specs) > 1:
            for j in range(len(specs)):
                c = copy.deepcopy(case)
                del render(c)["values"][key][j]
                yield c
    for key in sorted(r.get("opts", {})):
        c = copy.deepcopy(case)
        del render(c)["opts"][key]
        yield c


def faults(case, render):
    for j in range(len(render(case).get("faults", ()))):
        c = copy.deepcopy(case)
        del render(c)["faults"][j]
        yield c


def render_case(case):
    def get(c):
        return c["render"]
    yield from faults(case, get)
    yield from templates(case)
    yield from values(case, get)


def items(case, key):
    """Dropping items of the list case[key], in chunks first."""
    n = len(case[key])
    step = n
    while step >= 1:
        for at in range(0, n, step):
            if step == n == 1:
                continue
            c = copy.deepcopy(case)
            del c[key][at:at + step]
            if c[key]:
                yield c
        step //= 2
