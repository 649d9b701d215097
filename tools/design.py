#!/usr/bin/env python3
"""Writes DESIGN.md (development only; run the checks before, for the counts)."""
import glob
import json
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.chdir(HERE)
props = [json.loads(l) for l in open("properties.jsonl")]
man = json.load(open("MANIFEST.json"))
kf = json.load(open("known_findings.json"))
notes, cur = {}, None
for l in open("tools/design_notes.txt"):
    l = l.rstrip("\n")
    if len(l) == 3 and l[0] == "C" and l[1:].isdigit():
        cur = l
        notes[cur] = ""
    elif cur:
        notes[cur] += l + "\n"
out = [open("tools/design_head.md").read()]
na = {x["property"]: x["reason"] for x in man["not_applicable"]}
out.append("## Properties decided\n")
seeds = {}
for m in sorted(glob.glob("seeded/*/meta.json")):
    d = json.load(open(m))
    seeds[os.path.basename(os.path.dirname(m))] = d
for p in props:
    i = p["id"]
    if i in na:
        continue
    ev = json.load(open(f"evidence/{i}.json")) if os.path.exists(f"evidence/{i}.json") else None
    out.append(f"### {i}: {p['title']}\n\n{p['statement']}\n")
    out.append(f"*For {p['quantifier']['text']}.* {p['why_tests_cant']}\n")
    if i in notes:
        out.append("How it is decided: " + notes[i].strip() + "\n")
    if ev:
        c = ev["coverage"]
        out.append(f"Rules ({c['obligations']} obligations, {len(c['functions_analysed'])} functions):\n")
        for r, x in c["rules"].items():
            out.append(f"- `{r}` ({x['instances']}): {x['text']}")
        out.append("")
    for f in kf["findings"]:
        if f["property"] == i:
            out.append(f"- Known finding at `{f['construct']}` (rule `{f['rule']}`): {f['what']}")
    for f in kf["fixed"]:
        if f.startswith(f"fixed: property={i} "):
            out.append("- Fixed: " + f.split(" ", 2)[2])
    s = [k for k, d in seeds.items() if d["property"] == i]
    if s:
        out.append("- Planted bugs caught: " + ", ".join(s))
    out.append("")
out.append("## Not applicable\n")
for p in props:
    if p["id"] in na:
        out.append(f"- **{p['id']} {p['title']}**: {na[p['id']]}")
out.append("\n## Planted bugs\n")
out.append("| id | property | what it breaks | needs | caught by |\n|---|---|---|---|---|")
for k, d in seeds.items():
    out.append(f"| {k} | {d['property']} | {d['what_it_breaks']} | {d['needs']} | {d.get('caught_by', d['property'])} |".replace("\n", " "))
out.append(open("tools/design_tail.md").read())
open("DESIGN.md", "w").write("\n".join(out) + "\n")
print(len("\n".join(out)))
