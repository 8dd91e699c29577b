"""Writes /verif/MANIFEST.json: every property with a module in sim/props has a
check, every other one is listed as not applicable."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

NOTE = {
    "C01": "seeded search over window cuts, bracketings, lost windows, recoveries and crash/restart points; oracle: reference rainflow of the uncut record",
    "C02": "seeded search over bracketings, chunkings, missing entries, abandoned sums and delivery faults; oracle: multiset union of the inputs",
    "C03": "seeded search over histories with late, duplicate, foreign, corrupted deliveries; oracle: refusal class and untouched operands, shadow model for accepted ones",
    "C04": "seeded search over save/crash/restore/add chains with disk faults and export settings; oracle: conservation against the shadow spectrum",
    "C05": "seeded search over storage generations with adversarial bin values; oracle: reference classification and half-bin bound",
    "C06": "seeded search over operations, interruption kinds and interruption points inside py_fatigue; oracle: input fingerprints and retry equality",
    "C07": "seeded search over thread interleavings at bytecode granularity; oracle: result alone, shared fingerprints",
    "C08": "seeded search over worker splits and interleavings of the parallel kernels; oracle: element evaluated alone",
    "C09": "seeded search over operation chains; oracle: shadow bookkeeping after each step",
    "C10": "seeded search over correction histories with failures and retries; oracle: formula once on the reference recovered spectrum",
    "C11": "seeded search over stop/resume points and load histories; oracle: independent cycle-by-cycle integration",
    "C12": "seeded search over outages, clock jumps, missing cells and periods; oracle: per-period reference totals",
    "C13": "seeded search over splits, regroupings, restarts and query orders; oracle: reference Miner sum",
    "C14": "seeded search over interleavings and interruptions of constructors; oracle: distinct increasing ids and palette order",
    "C15": "seeded search over assessment sequences with failing calls; oracle: fresh-table result",
    "C16": "seeded search over interleavings with other users of the random state; oracle: result alone and neighbours' numbers",
    "C17": "seeded search over addition histories and repeated recoveries; oracle: reference rainflow of ordered window extremes",
    "C18": "seeded search over drawings on several figures with the current figure changing, figures cleared and closed, drawings failing and interrupted; oracle: the same drawings alone, data of the drawn object, settings and objects unchanged",
    "C19": "seeded search over programs with settings of their own and sequences of completed, refused and interrupted operations; oracle: process-wide settings before and after each",
}
PURE = ("pure function of its arguments: no schedule, clock, fault, crash point, shared state or multi-party "
        "behaviour for a simulator to decide")

checks, na = [], []
for line in open(os.path.join(HERE, "properties.jsonl")):
    pid = json.loads(line)["id"]
    if os.path.exists(os.path.join(HERE, "sim", "props", pid.lower() + ".py")):
        checks.append({
            "property": pid,
            "quick_cmd": f"./check {pid} quick",
            "thorough_cmd": f"./check {pid} thorough",
            "evidence_file": f"evidence/{pid}.json",
            "technique": "deterministic simulation with fault injection",
            "level": "exploration",
            "level_note": NOTE[pid],
        })
    elif pid in NOTE:
        na.append({"property": pid, "reason": "check not built yet"})
    else:
        na.append({"property": pid, "reason": PURE})

manifest = {
    "version": 1,
    "setup_cmd": "./setup",
    "checks": checks,
    "not_applicable": na,
    "notes": "No hooks in /repo. Checks import py_fatigue from /repo's working tree; ./replay <file> reproduces a reported violation.",
}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(manifest, f, indent=1)
    f.write("\n")
print(len(checks), "checks,", len(na), "not applicable")
