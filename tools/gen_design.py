#!/usr/bin/env python3
"""Rewrites the generated part of DESIGN.md: per property, the harnesses and
their bounds (from the doc comments in harness/h), and the planted bugs."""
import re, os, glob, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
docs = {}
for f in sorted(glob.glob(V + "/harness/h/*.go")):
    s = open(f).read()
    for m in re.finditer(r"((?:^//.*\n)+)^func ([A-Z][0-9]{2}X?_\w+)\(\)", s, re.M):
        t = [l[2:].strip() for l in m.group(1).splitlines()]
        t = " ".join(l for l in t if not l.startswith("cover:"))
        docs[m.group(2)] = re.sub(r"^\w+: ?", "", t)
caught = {}
p = V + "/tools/seed_results.json"
if os.path.exists(p): caught = json.load(open(p))
out = []
for l in open(V + "/properties.jsonl"):
    d = json.loads(l); i = d["id"]
    out.append(f"\n### {i} {d['title']}\n")
    q = sorted(n for n in docs if n.startswith(i + "_")); x = sorted(n for n in docs if n.startswith(i + "X_"))
    if not q and not x: out.append("No check (not applicable, see above).\n"); continue
    for n in q: out.append(f"- `{n}`: {docs[n]}")
    for n in x: out.append(f"- `{n}` (thorough): {docs[n]}")
out.append("\n## Planted bugs and what catches them\n")
out.append("| id | property | needs | breaks | quick check |\n|---|---|---|---|---|")
for m in sorted(glob.glob(V + "/seeded/*/meta.json")):
    d = json.load(open(m)); i = os.path.basename(os.path.dirname(m))
    out.append(f"| {i} | {d['property']} | {d['needs']} | {d['what_it_breaks']} | {caught.get(i, 'not run')} |")
s = open(V + "/DESIGN.md").read()
a, b = "<!-- generated: tools/gen_design.py -->", "<!-- end generated -->"
s = s[:s.index(a) + len(a)] + "\n" + "\n".join(out) + "\n" + s[s.index(b):]
open(V + "/DESIGN.md", "w").write(s)
