#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design_head.md, the per-property texts in tools/design_props.md and seeded/*/meta.json"""
import glob, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from checks import CHECKS
titles = {}
for l in open(V + "/properties.jsonl"):
    d = json.loads(l); titles[d["id"]] = d["title"]
texts, cur = {}, None
for l in open(V + "/tools/design_props.md"):
    if l.startswith("## "): cur = l[3:].strip(); texts[cur] = []
    elif cur: texts[cur].append(l)
out = [open(V + "/tools/design_head.md").read().rstrip(), "", "# The properties, one by one", ""]
for pid in sorted(CHECKS):
    out += [f"## {pid} {titles[pid]}", "", "".join(texts[pid]).strip(), ""]
first = {}
for l in open(V + "/tools/first_missed.txt"):
    if l.strip():
        k, w = l.strip().split(" ", 1); first[k] = w
out += ["# Planted bugs, and the checks that catch them", "",
 "Each was written from the text of a property and the code, confirmed in a scratch copy (builds, the stable tests pass, the demonstration",
 "fails with it and passes without), and is caught by the quick check of its property (`tools/plant.py` does all of this). The last column",
 "says what a check that first missed it was given.", "",
 "| planted bug | property | what it breaks | needs | first missed |", "|---|---|---|---|---|"]
for d in sorted(glob.glob(V + "/seeded/*")):
    m = json.load(open(d + "/meta.json")); n = os.path.basename(d)
    c = lambda s: s.replace("|", "\\|")
    out.append(f"| {n} | {m['property']} | {c(m['what_it_breaks'])} | {c(m['needs'])} | {first.get(n,'')} |")
out += ["", open(V + "/tools/design_tail.md").read().rstrip(), ""]
open(V + "/DESIGN.md", "w").write("\n".join(out))
