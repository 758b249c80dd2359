#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the list of simulations that exist."""
import json, os, subprocess
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f"{here}/properties.jsonl")]
TECH = "deterministic simulation with fault injection: seeded search over schedules, faults and crash points"
SC = " Trusts the simulator (sequentially consistent memory, the disk model in DESIGN.md), the oracle and the compiler; a search, not a proof."
LEVEL = {
 "C0": "Real fraos code under the simulated scheduler and disk; histories judged against a reference log model." + SC,
 "C1": "Real indexed-log-map and fraos under the simulated scheduler and disk, sled replaced by a model of its contract." + SC,
 "C2": "Real multiverse code over a modelled sled, judged against a reference block-set model." + SC,
 "C3": "Real block sources on a paused-clock runtime over a scripted node and a modelled sled." + SC,
 "C4": "Real selection code under simulated randomness, failing estimators and scheduler." + SC,
}
DONE = json.load(open(f"{here}/tools/claimed.json"))
NA = "A pure function of its input: no schedule, clock, I/O, randomness, crash or second party for a simulator to control, so seeded input generation would be property testing and not simulation."
checks, na = [], []
for p in props:
    i = p["id"]
    if i in DONE:
        checks.append(dict(property=i, quick_cmd=f"./check.sh {i} quick", thorough_cmd=f"./check.sh {i} thorough",
            evidence_file=f"evidence/{i}.json", technique=TECH, level="exploration", level_note=LEVEL[i[:2]]))
    elif i.startswith("N"):
        na.append(dict(property=i, reason=json.load(open(f"{here}/tools/na.json")).get(i, NA)))
    else:
        na.append(dict(property=i, reason="Its simulation is not built yet."))
m = dict(version=1, setup_cmd="./setup.sh",
    hooks=dict(guard="cfg(dst)", enable="sim/rustc-wrapper.sh passes --cfg dst when it compiles the crates under test",
        source_commits=json.load(open(f"{here}/tools/hooks.json"))),
    checks=checks, not_applicable=na,
    notes="See DESIGN.md. ./replay.sh FILE repeats a recorded execution exactly. Seeds come from VERIF_SEED; VERIF_SECS and VERIF_RUNS override a check's budget.")
json.dump(m, open(f"{here}/MANIFEST.json", "w"), indent=1); open(f"{here}/MANIFEST.json", "a").write("\n")
