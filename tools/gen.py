#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props/*.py (one list each)."""
import json, pathlib, runpy

here = pathlib.Path(__file__).parent
root = here.parent
props = []
for f in sorted((here / "props").glob("*.py")):
    props += runpy.run_path(str(f))["PROPS"]
props.sort(key=lambda p: p["id"])
ids = [p["id"] for p in props]
assert len(ids) == len(set(ids)), "duplicate ids"

with open(root / "properties.jsonl", "w") as out:
    for p in props:
        assert len(p["title"]) <= 80, p["title"]
        assert all((pathlib.Path("/repo") / f).exists() for f in p["files"]), p["files"]
        out.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["quantifier"]},
            "why_tests_cant": p["why"],
            "anchors": {
                "files": p["files"],
                "mechanism": [{"name": n, "where": w} for n, w in p["mechanism"]],
                "observe_at": p["observe"],
                "hook_needed": p.get("hook"),
            },
        }, ensure_ascii=False) + "\n")

checks, na = [], []
for p in props:
    if "not_applicable" in p:
        na.append({"property": p["id"], "reason": p["not_applicable"]})
        continue
    checks.append({
        "property": p["id"],
        "quick_cmd": f"bash run.sh {p['id']}",
        "thorough_cmd": f"VERIF_TIER=thorough bash run.sh {p['id']}",
        "evidence_file": f"evidence/{p['id']}.json",
        "technique": p.get("technique", "runtime monitor with an independent oracle over generated workloads"),
        "level": p.get("level", "exploration"),
        "level_note": p["note"],
    })
manifest = {
    "version": 1,
    "setup_cmd": "bash setup.sh",
    "hooks": {"guard": "none", "enable": "no hooks: the checks compile /repo's files as they are", "source_commits": []},
    "checks": checks,
    "not_applicable": na,
    "notes": "Known findings and repaired defects: known_findings.json. Design: DESIGN.md. properties.jsonl and this file are written by tools/gen.py.",
}
(root / "MANIFEST.json").write_text(json.dumps(manifest, indent=1, ensure_ascii=False) + "\n")
print(len(props), "properties,", len(checks), "claimed")
