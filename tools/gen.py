#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

P = []


def prop(id, title, statement, over, text, why, files, mechanism, technique, note, level="model_checking", observe=()):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mechanism=mechanism, technique=technique, note=note, level=level, observe=list(observe)))


exec(open(os.path.join(HERE, "tools", "table.py")).read())

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["why"],
            "anchors": {
                "files": p["files"],
                "mechanism": [{"name": n, "where": w} for n, w in p["mechanism"]],
                "observe_at": p["observe"] or ["public API return values, str(specfile), the file on disk"],
                "hook_needed": None,
            },
        }) + "\n")

with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump({
        "version": 1,
        "setup_cmd": "python3 run_check.py --self-test",
        "checks": [{
            "property": p["id"],
            "quick_cmd": f"python3 run_check.py {p['id']}",
            "thorough_cmd": f"VERIF_TIER=thorough python3 run_check.py {p['id']} --tier thorough",
            "evidence_file": f"evidence/{p['id']}.json",
            "technique": p["technique"],
            "level": p["level"],
            "level_note": p["note"],
        } for p in P],
        "not_applicable": [],
        "notes": "No hooks in /repo are needed: the checks drive the public API. DESIGN.md describes alphabets, bounds and oracles.",
    }, f, indent=1)
    f.write("\n")
print(len(P), "properties")
