#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the list of implemented checks."""
import json, os, subprocess
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f"{root}/properties.jsonl")]
out = subprocess.run([f"{root}/harness/target/release/pbt", "list"], capture_output=True, text=True, check=True).stdout
out += subprocess.run([f"{root}/offchain/target/release/pbt-offchain", "list"], capture_output=True, text=True, check=True).stdout
have = {l.split()[0] for l in out.splitlines()}
notes = json.load(open(f"{root}/tools/levels.json"))
checks, na = [], []
for p in props:
    i = p["id"]
    if i in have:
        n = notes.get(i, {})
        checks.append({
            "property": i,
            "quick_cmd": f"./check.sh {i}",
            "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {i}",
            "technique": n.get("technique", "stateful property-based testing against a reference model"),
            "level": "exploration",
            "level_note": n.get("note", "Randomised search with shrinking over generated histories; nothing is proved outside the generated cases. Trusts cw-multi-test as the chain model and the reference model in the harness."),
        })
    else:
        na.append({"property": i, "reason": notes.get(i, {}).get("na", "check not built yet")})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "All checks are property-based tests in /verif/harness and, for the off-chain worker, /verif/offchain (own generator/shrinker engine, see DESIGN.md). No hooks in /repo are needed. `./check.sh replay <file>` re-runs a replay file."}
json.dump(m, open(f"{root}/MANIFEST.json", "w"), indent=1, ensure_ascii=False)
open(f"{root}/MANIFEST.json", "a").write("\n")
print(len(checks), "checks", len(na), "not applicable")
