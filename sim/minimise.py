"""Minimise a failing plan.  py_fatigue is imported once; every trial runs in
a forked child, so trials cannot influence each other."""
import copy
import json
import os
import sys
import time

_mono = time.monotonic


def trial(mod, plans, kind):
    """Execute the plans in order in a child; True if the last one (or any)
    ends in a violation of this kind."""
    from .run import execute

    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        ans = b"0"
        try:
            for p in plans:
                _ctx, res = execute(mod, p)
                if res is not None and res[0] == "violation" and res[1] == kind:
                    ans = b"1" + res[2].encode()[:4000]
                    break
        finally:
            os.write(w, ans)
            os._exit(0)
    os.close(w)
    data = b""
    while True:
        b = os.read(r, 65536)
        if not b:
            break
        data += b
    os.close(r)
    os.waitpid(pid, 0)
    if data[:1] == b"1":
        return data[1:].decode(errors="replace")
    return None


def ddmin(items, test, deadline):
    """Classic delta debugging over a list."""
    n = 2
    while len(items) >= 2 and _mono() < deadline:
        size = max(1, len(items) // n)
        parts = [items[i:i + size] for i in range(0, len(items), size)]
        for i in range(len(parts)):
            rest = [x for j, p in enumerate(parts) if j != i for x in p]
            if test(rest):
                items = rest
                n = max(n - 1, 2)
                break
            if _mono() >= deadline:
                return items
        else:
            if size == 1:
                break
            n = min(len(items), n * 2)
    if len(items) == 1 and _mono() < deadline and test([]):
        items = []
    return items


def shrink(mod, plan, kind, prefix, deadline):
    detail = None

    def fails(p):
        return trial(mod, prefix + [p], kind)

    for key in getattr(mod, "LISTS", ("ops",)):
        if not isinstance(plan.get(key), list):
            continue

        def test(items, key=key):
            p = copy.deepcopy(plan)
            p[key] = items
            return fails(p) is not None

        plan = dict(plan, **{key: ddmin(plan[key], test, deadline)})
    if hasattr(mod, "simplify"):
        progress = True
        while progress and _mono() < deadline:
            progress = False
            for cand in mod.simplify(copy.deepcopy(plan)):
                if _mono() >= deadline:
                    break
                if cand != plan and fails(cand) is not None:
                    plan = cand
                    progress = True
                    break
    detail = fails(plan)
    return plan, detail


def main():
    arg = json.load(open(sys.argv[1]))
    from . import seams
    from .run import make_plan, module

    seams.boot(jit=arg["jit"])
    mod = module(arg["pid"])
    deadline = _mono() + arg["cap_s"]
    plan, kind = arg["plan"], arg["kind"]
    res = {"plan": plan, "prefix": [], "detail": arg["detail"], "reproduced": False}
    prefix = []
    ok = trial(mod, [plan], kind)
    if ok is None and arg["before"]:
        before = [make_plan(mod, arg["seed"], arg["pid"], arg["tier"], i) for i in arg["before"]]
        if trial(mod, before + [plan], kind) is not None:
            prefix = ddmin(before, lambda b: trial(mod, b + [plan], kind) is not None,
                           _mono() + arg["cap_s"] / 2)
            ok = True
    if ok is not None:
        res["reproduced"] = True
        p, d = shrink(mod, plan, kind, prefix, deadline)
        if d is not None:
            res["plan"], res["detail"] = p, d
    res["prefix"] = prefix
    with open(arg["out"], "w") as f:
        json.dump(res, f)


if __name__ == "__main__":
    main()
