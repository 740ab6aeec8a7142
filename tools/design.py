#!/usr/bin/env python3
"""Assembles DESIGN.md: head, one section per property (rules and counts from an evidence directory), tail."""
import json, os, sys
from props import PROPS
from design_notes import N
here = os.path.dirname(os.path.abspath(__file__)); root = os.path.dirname(here)
ev = sys.argv[1] if len(sys.argv) > 1 else root + "/evidence"
out = [open(here + "/design_head.md").read()]
for p in sorted(PROPS, key=lambda p: p["id"]):
    out.append(f"### {p['id']} {p['title']}\n")
    if p.get("na"):
        out.append(f"Not claimed: {p['na']}\n"); continue
    how, lim = N[p["id"]]
    out.append(f"{how}\n")
    e = json.load(open(f"{ev}/{p['id']}.json"))["coverage"]
    out.append(f"Technique: {p['tech']}. Anchors: {', '.join(p['files'])}. On this tree: {e['obligations']} obligations, {e['functions_analysed']} functions.\n")
    out.append("\n".join(f"- `{k}` ({e['obligations_by_rule'].get(k, 0)}): {v}" for k, v in sorted(e["rules"].items())) + "\n")
    l = " ".join(x for x in (p["note"], lim) if x)
    if l: out.append(f"Limits: {l}\n")
seeds = ["| seed | property | what it needs | caught |", "|---|---|---|---|"]
for d in sorted(os.listdir(root + "/seeded")):
    m = json.load(open(f"{root}/seeded/{d}/meta.json"))
    seeds.append(f"| {d} | {m['property']} | {m['needs']} | {m.get('caught', 'yes')} |")
fixes = ["| property | commit | what failed |", "|---|---|---|"]
for k in json.load(open(root + "/known_findings.json")):
    fixes.append(f"| {k['property']} | {k.get('commit', k['status'])} | {k['what']} |")
out.append(open(here + "/design_tail.md").read().replace("@SEEDS@", "\n".join(seeds)).replace("@FIXES@", "\n".join(fixes)))
open(root + "/DESIGN.md", "w").write("\n".join(out))
