#!/usr/bin/env python3
"""Writes DESIGN.md from DESIGN.in.md: per property its statement, rule and targets; the planted bugs; the findings."""
import json, os, re, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f"{V}/properties.jsonl")]
man = json.load(open(f"{V}/MANIFEST.json"))
tech = {c["property"]: c for c in man["checks"]}
notes = {}
text = open(f"{V}/DESIGN.in.md").read()
body, _, tail = text.partition("<!-- notes -->")
for m in re.finditer(r"^## (C\d\d)\n(.*?)(?=^## C|\Z)", tail, re.S | re.M): notes[m[1]] = m[2].strip()
out = []
for p in props:
    i = p["id"]; out.append(f"### {i} {p['title']}\n")
    f = f"{V}/checks/{i}.cc"
    if os.path.exists(f):
        s = open(f).read(); rule = re.search(r'PBT_RULE\("(.*?)"\);', s, re.S)[1]
        t = re.findall(r"PBT_TARGET\((\w+), (\w+), (\d+), (\d+)\)", s)
        out.append(f"*Decided by* {tech[i]['technique'].split(': ', 1)[1]}. {rule}\n")
        out.append("*Bounds (generated cases, quick / thorough):* " + ", ".join(f"{n} {q} / {l}" + (" on the simulated machine" if k == "Isolated" else "") for n, k, q, l in t) + ".\n")
        out.append("*Why tests cannot:* " + p["why_tests_cant"] + "\n")
    else:
        out.append("Not claimed: " + next(n["reason"] for n in man["not_applicable"] if n["property"] == i) + "\n")
    if i in notes: out.append(notes[i] + "\n")
text = body.replace("<!-- properties -->", "\n".join(out))
caught = json.load(open(f"{V}/tools/planted.json")) if os.path.exists(f"{V}/tools/planted.json") else {}
rows = ["| change | property | needs | caught by |", "|---|---|---|---|"]
for d in sorted(glob.glob(f"{V}/seeded/*/meta.json")):
    n = os.path.basename(os.path.dirname(d)); m = json.load(open(d)); rows.append(f"| {n} | {m['property']} | {m['needs']} | {caught.get(n, '?')} |")
text = text.replace("<!-- planted -->", "\n".join(rows))
find = [l.strip() for l in open(f"{V}/known_findings.txt") if l.startswith(("known", "fixed"))]
text = text.replace("<!-- findings -->", "\n".join("- " + l for l in find))
open(f"{V}/DESIGN.md", "w").write(text)
