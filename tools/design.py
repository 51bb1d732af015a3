#!/opt/venv/bin/python
"""Writes DESIGN.md from tools/design_head.md, tools/table.py, the spaces' own descriptions, the evidence of the
last runs, tools/detection.json and tools/design_tail.md."""
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [HERE, os.environ.get("VERIF_REPO", "/repo")]
T = os.path.join(HERE, "tools")


def read(name):
    with open(os.path.join(T, name)) as f:
        return f.read()


P = []


def prop(id, title, statement, over, text, why, files, mechanism, technique, note, level="model_checking", observe=()):
    P.append(dict(id=id, title=title, statement=statement, text=text, why=why, technique=technique, note=note))


exec(read("table.py"))
counts = json.loads(read("counts.json")) if os.path.exists(os.path.join(T, "counts.json")) else {}
for p in P:
    path = os.path.join(HERE, "evidence", p["id"] + ".json")
    if os.path.exists(path):
        with open(path) as f:
            e = json.load(f)
        if e["tier"] == "quick":
            counts[p["id"]] = {
                "wall": e["wall_s"],
                "spaces": {s["space"]: [s["cases"], s["transitions"], s["states"]] for s in e["coverage"]["spaces"]},
            }
with open(os.path.join(T, "counts.json"), "w") as f:
    json.dump(counts, f, indent=1, sort_keys=True)
    f.write("\n")

out = [read("design_head.md"), "\n## The properties, one by one\n"]
for p in P:
    m = importlib.import_module(f"mc.props.{p['id'].lower()}")
    c = counts.get(p["id"], {"wall": None, "spaces": {}})
    out.append(f"\n### {p['id']}: {p['title']}\n")
    out.append(f"{p['statement']}\n")
    out.append(f"*Quantifier*: {p['text']}.\n")
    out.append(f"*Deciding method*: {p['technique']}.\n")
    out.append("*Spaces enumerated (all of them completely; quick tier: cases / transitions / distinct states)*:\n")
    for s in m.SPACES:
        n = c["spaces"].get(s.name)
        size = f" ({n[0]} / {n[1]} / {n[2]})" if n else ""
        out.append(f"- `{s.name}`{size}: {s.doc}")
    out.append(f"\n*Bounds and limits*: {p['note']}\n")
    out.append(f"*What tests cannot reach*: {p['why']}\n")
    if c["wall"]:
        out.append(f"*Cost*: about {round(c['wall'])} s on 8 cores (quick tier).\n")
out.append("\n## Planted bugs and what catches them\n")
det = json.loads(read("detection.json")) if os.path.exists(os.path.join(T, "detection.json")) else {}
out.append("| bug | property | needs | caught by |")
out.append("| --- | --- | --- | --- |")
for name in sorted(os.listdir(os.path.join(HERE, "seeded"))):
    with open(os.path.join(HERE, "seeded", name, "meta.json")) as f:
        meta = json.load(f)
    out.append(f"| {name} | {meta['property']} | {meta['needs'].replace('|', '/')} | {det.get(name, 'not run yet')} |")
out.append("")
out.append(read("design_tail.md"))
with open(os.path.join(HERE, "DESIGN.md"), "w") as f:
    f.write("\n".join(out))
print("DESIGN.md", sum(len(o) for o in out))
