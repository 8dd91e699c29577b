"""Worker process: executes runs start, start+step, ... and reports as JSON."""
import json
import os
import sys
import time

_mono = time.monotonic


def main():
    arg = json.loads(sys.argv[1])
    t0 = _mono()
    from . import known, seams
    from .run import execute, make_plan, module

    seams.boot(jit=arg["jit"])
    mod = module(arg["pid"])
    out = {
        "runs": 0, "oracle": 0, "events": 0, "sim_s": 0.0, "faults": {}, "probes": {},
        "states": [], "digests": {}, "nontrivial": [], "violation": None, "known": {},
        "harness": None, "capped": False, "samples": [], "boot_s": round(_mono() - t0, 3),
    }
    states = set()
    done = []
    todo = arg["indices"] if "indices" in arg else range(arg["start"], arg["total"], arg["step"])
    findings = known.load(arg["pid"])
    seams.quiet_fd()
    for idx in todo:
        if _mono() - t0 > arg["cap_s"] or os.path.exists(arg["stopfile"]):
            out["capped"] = True
            break
        plan = make_plan(mod, arg["seed"], arg["pid"], arg["tier"], idx)
        ctx, res = execute(mod, plan)
        out["runs"] += 1
        out["oracle"] += ctx.oracle
        out["events"] += ctx.events
        out["sim_s"] += ctx.sim_s
        for k, v in ctx.faults.items():
            out["faults"][k] = out["faults"].get(k, 0) + v
        for k, v in ctx.probes.items():
            out["probes"][k] = out["probes"].get(k, 0) + v
        states |= ctx.states
        out["digests"][str(idx)] = ctx.digest()[:16]
        if ctx.nontrivial:
            out["nontrivial"].append(ctx.digest()[:16])
        if len(out["samples"]) < 1 and ctx.nontrivial:
            out["samples"].append({"index": idx, "plan": plan})
        if res is not None:
            if res[0] == "harness":
                out["harness"] = {"idx": idx, "text": res[1]}
                break
            f = known.match(findings, res[1], res[2])
            if f is not None:
                out["known"][f["text"]] = out["known"].get(f["text"], 0) + 1
            else:
                out["violation"] = {
                    "idx": idx, "plan": plan, "kind": res[1], "detail": res[2],
                    "before": done, "jit": arg["jit"],
                }
                if not arg.get("keep"):
                    open(arg["stopfile"], "w").close()
                break
        done.append(idx)
    out["states"] = sorted(states)
    out["wall"] = _mono() - t0
    with open(arg["out"], "w") as f:
        json.dump(out, f)


if __name__ == "__main__":
    main()
