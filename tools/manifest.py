#!/usr/bin/env python3
"""Writes MANIFEST.json (run: python3 tools/manifest.py)."""
import json, os, subprocess
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
"C01": "runtime monitor: random builder programs, value oracle recomputed independently",
"C02": "runtime monitor over random circuits: honest-run verdict oracle",
"C03": "runtime monitor with fault injection: every accepted alteration is a violation",
"C04": "runtime monitor over random circuits: honest-run verdict oracle",
"C05": "runtime monitor with fault injection and a dishonest-prover hook",
"C06": "runtime monitor over random circuits: honest-run verdict oracle",
"C07": "runtime monitor with fault injection and dishonest provers",
"C08": "runtime monitor over random circuits: honest-run verdict oracle",
"C09": "runtime monitor with fault injection: every accepted alteration is a violation",
"C20": "runtime monitor with hostile bytes: any panic, abort or run-away is a violation",
}
extra = os.path.join(ROOT, "tools", "techniques.json")
if os.path.exists(extra): T.update(json.load(open(extra)))
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
NA = json.load(open(os.path.join(ROOT, "tools", "na.json"))) if os.path.exists(os.path.join(ROOT, "tools", "na.json")) else {}
hooks = [l.split()[0] for l in subprocess.check_output(["git", "-C", "/repo", "log", "--format=%H %s"], text=True).splitlines() if "verif hooks" in l]
checks, na = [], []
for p in props:
    i = p["id"]
    b = i.lower()
    if i in T and (os.path.exists(f"{ROOT}/harness/src/bin/{b}.rs")):
        checks.append({"property": i, "quick_cmd": f"./check {b}", "thorough_cmd": f"./check {b} thorough",
            "evidence_file": f"evidence/{i}.json", "technique": T[i], "level": "exploration",
            "level_note": "Observes executions of the real code; a pass covers the executions counted in the evidence file, not all inputs."})
    else:
        na.append({"property": i, "reason": NA.get(i, "the monitor for this property is not built yet")})
m = {"version": 1, "setup_cmd": "bash tools/setup.sh",
     "hooks": {"guard": "cfg(verif_hooks)", "enable": "harness/.cargo/config.toml passes --cfg verif_hooks in rustflags", "source_commits": hooks},
     "checks": checks, "not_applicable": na,
     "notes": "Each check builds /verif/harness (path dependencies on /repo's crates) into /verif/target and runs one binary. VERIF_SEED, VERIF_TIER, VERIF_BUDGET_S are honoured; `./check cNN --replay FILE` re-runs a reported case."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not claimed")
