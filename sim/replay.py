"""Replay a violation file.  Exit 1 if it reproduces, 0 if it does not."""
import json
import os
import sys


def main():
    path = sys.argv[1]
    verbose = "-q" not in sys.argv[2:]
    rep = json.load(open(path))
    if "digest" in rep and os.environ.get("PYTHONHASHSEED") != "4242":
        # recorded in a process with hash seed 0, compared in one with another
        os.execve(sys.executable, [sys.executable, "-B", "-m", "sim.replay"] + sys.argv[1:],
                  dict(os.environ, PYTHONHASHSEED="4242"))
    from . import seams
    from .run import execute, module

    seams.boot(jit=rep.get("jit", False))
    mod = module(rep["property"])
    for p in rep.get("prefix", []):
        ctx, res = execute(mod, p)
        if res is not None and res[0] == "violation" and res[1] == rep["kind"]:
            break
    else:
        ctx, res = execute(mod, rep["plan"], trace=True)
    if verbose:
        for line in ctx.trace or []:
            print("  ", line)
    if res is None and "digest" in rep and ctx.digest()[:16] != rep["digest"]:
        print(f"REPRODUCED property={rep['property']} {rep['kind']}: event log digest {ctx.digest()[:16]}, "
              f"recorded {rep['digest']}")
        sys.exit(1)
    if res is None:
        print(f"NOT REPRODUCED property={rep['property']}")
        sys.exit(0)
    if res[0] == "harness":
        print(res[1])
        sys.exit(2)
    same = res[1] == rep["kind"]
    print(f"{'REPRODUCED' if same else 'OTHER VIOLATION'} property={rep['property']} {res[1]}: {res[2]}")
    print(f"event log digest {ctx.digest()}")
    sys.exit(1 if same else 3)


if __name__ == "__main__":
    main()
