#!/usr/bin/env python3
"""Writes DESIGN.md out of design/, props/ and the evidence of the last run."""
import glob, json, os, sys
H = os.path.dirname(os.path.abspath(__file__))
PROPS = []
def prop(id, area, title, statement, over, quantifier, why, files, mechanism, technique, level, note, state=(), observe=(), hook=None, claimed=True, reason=None):
    PROPS.append(dict(locals()))
for f in sorted(glob.glob(f"{H}/props/*.py")):
    exec(compile(open(f).read(), f, "exec"), {"prop": prop})
PROPS.sort(key=lambda p: p["id"])
ns = {}
exec(open(f"{H}/design/oracles.py").read(), ns)
ORACLE = ns["ORACLE"]
seeds = {}
for m in sorted(glob.glob(f"{H}/seeded/*/meta.json")):
    d = json.load(open(m))
    seeds.setdefault(d["property"], []).append(os.path.basename(os.path.dirname(m)))
old = open(f"{H}/DESIGN.md").read() if os.path.exists(f"{H}/DESIGN.md") else ""
out = [open(f"{H}/design/head.md").read().rstrip(), ""]
for p in PROPS:
    i = p["id"]
    out += [f"### {i} {p['title']}", ""]
    if not p["claimed"]:
        out += [f"Not applicable: {p['reason']}", ""]
        continue
    out += [f"*Enumerated:* {p['quantifier']}.", "", f"*Oracle:* {ORACLE[i]}", "", f"*Beyond the tests:* {p['why']}", ""]
    if p["note"]:
        out += [f"*Limits:* {p['note']}", ""]
    if p["hook"]:
        out += [f"*Hook:* {p['hook']}.", ""]
    e = f"{H}/evidence/{i}.json"
    if os.path.exists(e):
        d = json.load(open(e))
        out += ["*Bounds:* " + "; ".join(f"{s['name']}: {s['bounds']} ({s['executions']}, {s['wall_s']} s{'' if s['complete'] else ', not complete'})" for s in d["coverage"]["scenarios"]) + ".", ""]
    if i in seeds:
        out += [f"*Planted bugs it catches:* {', '.join(seeds[i])}.", ""]
out += [open(f"{H}/design/tail.md").read().rstrip()]
fixed = [l.strip()[7:] for l in open(f"{H}/known_findings.txt") if l.startswith("fixed:")]
out += ["", "## 6. Defects of shared-core that the checks found", "", "Each was shown on the real code by an execution of the check, and is repaired by a `fix:` commit in /repo, after which the check is quiet; with the commit undone the check reports it again.", ""]
for l in fixed:
    a, b, c = l.split(" ", 2)
    out.append(f"* {a.split('=')[1]} ({b}): {c}.")
found = [l.strip()[9:] for l in open(f"{H}/known_findings.txt") if l.startswith("finding:")]
if found:
    out += ["", "Known findings, recorded and not repaired:", ""] + [f"* {l}" for l in found]
open(f"{H}/DESIGN.md", "w").write("\n".join(out) + "\n")
