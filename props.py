#!/usr/bin/env python3
"""Writes properties.jsonl, MANIFEST.json and areas.txt: what is claimed is said once, in props/*.py."""
import glob
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
PROPS = []


def prop(id, area, title, statement, over, quantifier, why, files, mechanism, technique, level, note, state=(), observe=(), hook=None, claimed=True, reason=None):
    assert len(title) <= 80, title
    PROPS.append(dict(locals()))


COMMON = {"prop": prop}
for f in sorted(glob.glob(f"{HERE}/props/*.py")):
    exec(compile(open(f).read(), f, "exec"), dict(COMMON))
PROPS.sort(key=lambda p: p["id"])
assert len({p["id"] for p in PROPS}) == len(PROPS)

with open(f"{HERE}/properties.jsonl", "w") as f:
    for p in PROPS:
        anchors = {
            "files": list(p["files"]),
            "mechanism": [{"name": n, "where": w} for n, w in p["mechanism"]],
            "state": [{"name": n, "meaning": m, "where": w} for n, m, w in p["state"]],
            "observe_at": list(p["observe"]),
            "hook_needed": p["hook"],
        }
        for x in p["files"]:
            assert os.path.exists(f"/repo/{x}"), x
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": list(p["over"]), "text": p["quantifier"]},
            "why_tests_cant": p["why"], "anchors": anchors,
        }) + "\n")
hooks = json.load(open(f"{HERE}/props/hooks.json"))
manifest = {
    "version": 1,
    "setup_cmd": "./setup.sh",
    "hooks": hooks,
    "checks": [{
        "property": p["id"],
        "quick_cmd": f"./check.sh {p['id']}",
        "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {p['id']}",
        "evidence_file": f"evidence/{p['id']}.json",
        "technique": p["technique"],
        "level": p["level"],
        "level_note": p["note"],
    } for p in PROPS if p["claimed"]],
    "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in PROPS if not p["claimed"]],
    "notes": "See DESIGN.md. The checks run the real code of /repo's working tree, compiled in an offline workspace that rig/gen.py lays out under build/.",
}
with open(f"{HERE}/MANIFEST.json", "w") as f:
    f.write(json.dumps(manifest, indent=1) + "\n")
with open(f"{HERE}/areas.txt", "w") as f:
    f.write("".join(f"{p['id']} {p['area']}\n" for p in PROPS if p["claimed"]))
