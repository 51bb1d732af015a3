#!/usr/bin/env python3
"""
Plants a bug: plant(id, property, [(file, old, new), ...], needs, breaks, demo)
Applies the edit to /repo, checks that the tests still pass and the demo fails with it and
passes without it, stores seeded/<id>, runs the check of the property, and undoes the edit.

usage: plant.py FILE...   (python files with plant(...) calls)
       plant.py --detect [ID...]   (runs the checks against the stored bugs)
"""
import json
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def clean():
    sh(f"git -C {REPO} checkout -- .")


def demo_rc(d):
    return sh(f"bash {d}/demo.sh", cwd=REPO, timeout=300).returncode


def detect(bug):
    d = os.path.join(HERE, "seeded", bug)
    prop = json.load(open(os.path.join(d, "meta.json")))["property"]
    r = sh(f"git -C {REPO} apply {d}/patch.diff")
    if r.returncode:
        print(bug, "patch does not apply", r.stdout)
        return
    try:
        r = sh(f"python3 run_check.py {prop} --no-evidence", cwd=HERE, timeout=900)
    finally:
        clean()
    lines = r.stdout.splitlines()
    what = next((l.strip() for l in lines if l.strip().startswith("what:")), "")
    case = next((l.strip() for l in lines if l.strip().startswith("case:")), "")
    print(f"{bug} {prop}: {'CAUGHT' if r.returncode == 1 else 'MISSED rc=%d' % r.returncode} {case[:150]} {what[:150]}", flush=True)
    path = os.path.join(HERE, "tools", "detection.json")
    det = json.load(open(path)) if os.path.exists(path) else {}
    det[bug] = f"{prop}: {what.replace('what: ', '')[:110]}" if r.returncode == 1 else "missed"
    with open(path, "w") as f:
        json.dump(det, f, indent=1, sort_keys=True)
        f.write("\n")


def plant(bug, prop, edits, needs, breaks, demo):
    if os.environ.get("ONLY") and bug not in os.environ["ONLY"].split(","):
        return
    d = os.path.join(HERE, "seeded", bug)
    assert sh(f"git -C {REPO} status --porcelain").stdout == "", "repo not clean"
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, "demo.py"), "w") as f:
        f.write("import os\nimport sys\n\nsys.path.insert(0, os.getcwd())\n" + demo.lstrip("\n"))
    with open(os.path.join(d, "demo.sh"), "w") as f:
        f.write('#!/bin/bash\nPYTHONDONTWRITEBYTECODE=1 exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    with open(os.path.join(d, "meta.json"), "w") as f:
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, f, indent=1)
        f.write("\n")
    ok = True
    try:
        r0 = sh(f"bash {d}/demo.sh", cwd=REPO, timeout=300)
        for path, old, new in edits:
            p = os.path.join(REPO, path)
            s = open(p).read()
            assert s.count(old) == 1, (bug, path, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        diff = sh(f"git -C {REPO} diff").stdout
        with open(os.path.join(d, "patch.diff"), "w") as f:
            f.write(diff)
        t = sh("bash /opt/vp/build.sh >/dev/null && bash /opt/vp/test.sh /tmp/plant.json").stdout.splitlines()[-1]
        r1 = sh(f"bash {d}/demo.sh", cwd=REPO, timeout=300)
        if r0.returncode or not r1.returncode or t != "303 passed, 1 failed":
            ok = False
            print(f"{bug}: BAD demo without={r0.returncode} with={r1.returncode} tests: {t}\n{r0.stdout[-600:]}", flush=True)
    finally:
        clean()
    if ok:
        detect(bug)
    else:
        sh(f"rm -r {d}")


if __name__ == "__main__":
    if sys.argv[1:2] == ["--detect"]:
        for b in sys.argv[2:] or sorted(os.listdir(os.path.join(HERE, "seeded"))):
            detect(b)
    else:
        for f in sys.argv[1:]:
            exec(compile(open(f).read(), f, "exec"), {"plant": plant})
