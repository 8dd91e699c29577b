"""Runs one check: workers, minimisation, evidence, verdict."""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
WORKERS = 8
CAP = {"quick": 240, "thorough": 2400}
DEFAULT_SAMPLE = 24


SCRATCH = None


def env(hashseed):
    e = dict(os.environ)
    if SCRATCH:
        # compiled kernels are cached by source file; never reuse another tree's
        e["NUMBA_CACHE_DIR"] = os.path.join(SCRATCH, "numba")
    e.update(PYTHONHASHSEED=str(hashseed), OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
             MKL_NUM_THREADS="1", NUMBA_NUM_THREADS="1", MPLBACKEND="Agg",
             PYTHONPATH=HERE, PYTHONDONTWRITEBYTECODE="1", PYTHONWARNINGS="ignore")
    return e


def start(args, scratch, name, hashseed=0):
    args["out"] = os.path.join(scratch, name + ".json")
    err = open(os.path.join(scratch, name + ".err"), "w")
    p = subprocess.Popen([PY, "-B", "-m", "sim.worker", json.dumps(args)], cwd=HERE,
                         env=env(hashseed), stdout=err, stderr=err)
    return p, args


def collect(procs, limit, scratch):
    t_end = time.monotonic() + limit
    outs, errors = [], []
    for p, a in procs:
        try:
            p.wait(max(1, t_end - time.monotonic()))
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            errors.append(f"worker {a['start'] if 'start' in a else 'det'} killed after {limit} s")
            continue
        if p.returncode != 0 or not os.path.exists(a["out"]):
            errors.append(f"worker ended with {p.returncode}: "
                          + open(a["out"].replace(".json", ".err")).read()[-3000:])
            continue
        outs.append((a, json.load(open(a["out"]))))
    return outs, errors


def minimise(pid, tier, seed, v, scratch):
    job = {"pid": pid, "tier": tier, "seed": seed, "plan": v["plan"], "kind": v["kind"],
           "detail": v["detail"], "before": v["before"], "jit": v["jit"],
           "cap_s": 90, "out": os.path.join(scratch, "min.json")}
    jf = os.path.join(scratch, "job.json")
    json.dump(job, open(jf, "w"))
    try:
        subprocess.run([PY, "-B", "-m", "sim.minimise", jf], cwd=HERE, env=env(0),
                       stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=420)
        return json.load(open(job["out"]))
    except (subprocess.TimeoutExpired, OSError, ValueError):
        return {"plan": v["plan"], "prefix": [], "detail": v["detail"], "reproduced": False}


def main():
    pid, tier = sys.argv[1].upper(), sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    from .run import make_plan, module

    t0 = time.monotonic()
    mod = module(pid)
    total = mod.RUNS[tier]
    if os.environ.get("SIM_RUNS"):
        total = int(os.environ["SIM_RUNS"])
    cap = getattr(mod, "CAP", CAP)[tier]
    jit_workers = getattr(mod, "JIT_WORKERS", ())
    global SCRATCH
    scratch = SCRATCH = tempfile.mkdtemp(prefix=f"verif-{pid}-")
    stopfile = os.path.join(scratch, "stop")
    try:
        common = {"pid": pid, "tier": tier, "seed": seed, "cap_s": cap, "stopfile": stopfile}
        procs = [start(dict(common, start=w, step=WORKERS, total=total, jit=w in jit_workers),
                       scratch, f"w{w}") for w in range(WORKERS)]
        outs, errors = collect(procs, cap + 300, scratch)
        runs = sum(o["runs"] for _a, o in outs)
        # determinism: a sample of the runs again, in another order, in one
        # other process with another hash seed
        det = {"compared": 0, "equal": 0}
        digests = {}
        for a, o in outs:
            digests.update({int(k): v for k, v in o["digests"].items()})
        viol = [o["violation"] for _a, o in outs if o["violation"]]
        harness = [o["harness"] for _a, o in outs if o["harness"]]
        if not viol and not errors and not harness:
            n = getattr(mod, "DET_SAMPLE", DEFAULT_SAMPLE)
            idxs = [i for i in sorted(digests) if (i % WORKERS) not in jit_workers]
            pick = idxs[:: max(1, len(idxs) // n)][:n][::-1]
            p = start(dict(common, indices=pick, jit=False, stopfile=stopfile + "2", cap_s=120),
                      scratch, "det", hashseed=4242)
            douts, derr = collect([p], 400, scratch)
            for _a, o in douts:
                for k, v in o["digests"].items():
                    det["compared"] += 1
                    det["equal"] += digests[int(k)] == v
                    if digests[int(k)] != v and getattr(mod, "DIGEST_IS_PROPERTY", False):
                        viol.append({"idx": int(k), "plan": make_plan(mod, seed, pid, tier, int(k)), "kind": "differs-between-processes",
                                     "detail": "the same run gives other results in another process", "before": [],
                                     "jit": False, "digest": digests[int(k)]})
                if o["violation"]:
                    viol.append(o["violation"])
                if o["harness"]:
                    harness.append(o["harness"])
            errors += derr
        agg = lambda key: {k: sum(o[key].get(k, 0) for _a, o in outs)
                           for k in sorted({k for _a, o in outs for k in o[key]})}
        states = set()
        nontrivial = set()
        for _a, o in outs:
            states.update(o["states"])
            nontrivial.update(o["nontrivial"])
        wall = time.monotonic() - t0
        samples = [s for _a, o in outs for s in o["samples"]][:2]
        samples = [s if len(json.dumps(s)) < 6000 else
                   {"index": s["index"], "plan_head": json.dumps(s["plan"])[:6000]} for s in samples]
        ev = {
            "property": pid, "tier": tier, "seed": seed, "level": "exploration",
            "coverage": {
                "evaluations": runs,
                "distinct_nontrivial": len(nontrivial),
                "rule": mod.RULE,
                "samples": samples,
                "runs_requested": total,
                "stopped_early": any(o["capped"] for _a, o in outs),
                "runs_per_hour": int(runs / max(wall, 1e-3) * 3600),
                "oracle_evaluations": sum(o["oracle"] for _a, o in outs),
                "logged_events": sum(o["events"] for _a, o in outs),
                "simulated_time_s": round(sum(o["sim_s"] for _a, o in outs), 3),
                "faults_injected": agg("faults"),
                "probes": agg("probes"),
                "distinct_states": len(states),
                "state_measure": mod.STATES,
                "distinct_event_logs": len(set(digests.values())),
                "determinism": dict(det, how="same run index re-executed in another order, in another "
                                             "process, with another PYTHONHASHSEED; event-log digests compared"),
                "real_code": mod.REAL,
                "stubs": mod.STUB,
            },
            "assumptions": getattr(mod, "ASSUMES", []),
            "wall_s": round(wall, 2),
            "violations": len(viol),
        }
        code = 0
        for text, n in agg("known").items():
            print(f"KNOWN-FINDING: property={pid} {text} ({n} runs)")
        if viol:
            v = min(viol, key=lambda x: x["idx"])
            if "digest" in v:
                m = {"plan": v["plan"], "prefix": [], "detail": v["detail"], "reproduced": True}
            else:
                m = minimise(pid, tier, seed, v, scratch)
            os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
            path = os.path.join(HERE, "replays", f"{pid}-seed{seed}-run{v['idx']}.json")
            rep = {"property": pid, "seed": seed, "run": v["idx"], "tier": tier, "jit": v["jit"],
                   "kind": v["kind"], "detail": m["detail"], "plan": m["plan"],
                   "prefix": m["prefix"], "reproduced_when_minimised": m["reproduced"]}
            if "digest" in v:
                rep["digest"] = v["digest"]
            with open(path, "w") as f:
                json.dump(rep, f, indent=1)
            r = subprocess.run([PY, "-B", "-m", "sim.replay", path, "-q"], cwd=HERE, env=env(7),
                               capture_output=True, text=True, timeout=300)
            rep["replayed_in_fresh_process"] = r.returncode == 1
            with open(path, "w") as f:
                json.dump(rep, f, indent=1)
            print(f"{v['kind']}: {m['detail']}")
            print(f"replay in a fresh process: {'reproduced' if r.returncode == 1 else r.stdout[-500:]}")
            print(f"VIOLATION property={pid} replay={path}")
            code = 1
        elif harness or errors:
            for h in harness[:2]:
                print(f"HARNESS ERROR run {h['idx']}\n{h['text']}", file=sys.stderr)
            for e in errors[:2]:
                print("ERROR", e, file=sys.stderr)
            code = 2
        elif runs == 0:
            print("ERROR no run was executed", file=sys.stderr)
            code = 2
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        c = ev["coverage"]
        print(f"{pid} {tier}: {runs} runs, {c['distinct_nontrivial']} distinct non-trivial, "
              f"{c['oracle_evaluations']} oracle evaluations, {c['distinct_states']} states, "
              f"determinism {det['equal']}/{det['compared']}, {wall:.1f} s, exit {code}")
        sys.exit(code)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == "__main__":
    main()
