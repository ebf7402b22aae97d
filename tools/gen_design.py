#!/usr/bin/env python3
"""Assembles /verif/DESIGN.md from tools/design/*.md (prose), properties.jsonl, the harness' list of
sub-checks and the results of tools/seed.py (tools/seeds/results.json)."""
import json, os, re, subprocess
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f"{root}/properties.jsonl")]
per = {}
cur = None
for l in open(f"{root}/tools/design/properties.md"):
    m = re.match(r"^## (C\d+)", l)
    if m:
        cur = m.group(1)
        per[cur] = ""
    elif cur:
        per[cur] += l
out = open(f"{root}/tools/design/head.md").read()
out += "\n## Properties, one by one\n\n"
for p in props:
    out += f"### {p['id']} {p['title']}\n\n{per.get(p['id'], '').strip()}\n\n"
out += open(f"{root}/tools/design/tail.md").read()
res = {}
f = f"{root}/tools/seeds/results.json"
if os.path.exists(f):
    res = json.load(open(f))
out += "\n## Planted bugs\n\nEach was confirmed in a scratch run: it builds, the repository's 272 tests pass, its\ndemonstration passes without and fails with it. \"after\" tells the number of cases (of the failing\nsub-check) until the check found it with VERIF_SEED=1.\n\n| planted bug | property | needs | found by | \n|---|---|---|---|\n"
for d in sorted(os.listdir(f"{root}/seeded")):
    m = json.load(open(f"{root}/seeded/{d}/meta.json"))
    r = res.get(d, {})
    out += f"| {d} | {m['property']} | {m['needs']} | {r.get('found', '?')} |\n"
open(f"{root}/DESIGN.md", "w").write(out)
