#!/usr/bin/env python3
"""run_check.py <ID> [--tier quick|thorough] [--space NAME] [--replay FILE] [--workers N]"""
import argparse
import importlib
import json
import logging
import os
import shutil
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
PY = "/opt/venv/bin/python"


def reexec():
    """A clean, fixed environment: no user macros, no stale bytecode, fixed hashing."""
    if os.environ.get("VERIF_MC_CHILD") == "1":
        return
    home = tempfile.mkdtemp(prefix="verif-home-")
    env = {
        "PATH": "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
        "HOME": home,
        "TZ": "UTC",
        "LANG": "C.UTF-8",
        "LC_ALL": "C.UTF-8",
        "PYTHONHASHSEED": "0",
        "PYTHONDONTWRITEBYTECODE": "1",
        "PYTHONPYCACHEPREFIX": os.path.join(home, "pyc"),
        "VERIF_MC_CHILD": "1",
        "VERIF_SEED": os.environ.get("VERIF_SEED", "1"),
        "VERIF_TIER": os.environ.get("VERIF_TIER", "quick"),
        "VERIF_REPO": REPO,
    }
    py = PY if os.path.exists(PY) else sys.executable
    pid = os.spawnve(os.P_NOWAIT, py, [py, "-B", os.path.abspath(__file__)] + sys.argv[1:], env)
    _, status = os.waitpid(pid, 0)
    shutil.rmtree(home, ignore_errors=True)
    sys.exit(os.WEXITSTATUS(status) if os.WIFEXITED(status) else 4)


def self_test():
    """The code under test can be imported from the tree and the RPM bindings work."""
    import rpm

    import specfile
    from mc import core

    class Tiny(core.Space):
        name = "self-test"

        def cases(self, tier):
            return iter(range(100))

        def run(self, case, ctx):
            ctx.step()
            core.require(case != 57, "planted")

    scratch = core.scratch_root()
    try:
        r = core.explore(Tiny(), "quick", {}, 4, time.monotonic() + 60, scratch)
    finally:
        os.chdir("/")
        shutil.rmtree(scratch, ignore_errors=True)
    assert [v["index"] for v in r["violations"]] == [57], r
    assert rpm.expandMacro("%{expr:1+1}") == "2"
    print("self-test passed:", os.path.dirname(specfile.__file__), rpm.__version__)
    return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id", nargs="?")
    ap.add_argument("--self-test", action="store_true")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--space")
    ap.add_argument("--replay")
    ap.add_argument("--workers", type=int, default=0)
    ap.add_argument("--no-evidence", action="store_true")
    args = ap.parse_args()

    sys.path.insert(0, HERE)
    sys.path.insert(0, REPO)
    logging.disable(logging.CRITICAL)
    sys.setrecursionlimit(5000)

    import specfile

    real = os.path.realpath(specfile.__file__)
    if not real.startswith(os.path.realpath(REPO) + os.sep):
        print(f"error: specfile imported from {real}", file=sys.stderr)
        return 4

    if args.self_test:
        return self_test()
    from mc import core

    mod = importlib.import_module(f"mc.props.{args.id.lower()}")
    spaces = mod.SPACES
    if args.space:
        spaces = [s for s in spaces if s.name == args.space]
    level = getattr(mod, "LEVEL", "model_checking")
    known = core.load_known(os.path.join(HERE, "KNOWN_FINDINGS.txt"), args.id)
    workers = args.workers or min(8, os.cpu_count() or 1)
    t0 = time.monotonic()
    limit = 780 if args.tier == "quick" else 4 * 3600
    deadline = t0 + limit
    scratch = core.scratch_root()
    try:
        if args.replay:
            return replay(args, core, spaces, scratch)
        results, bad = [], None
        for space in spaces:
            ts = time.monotonic()
            r = core.explore(
                space, args.tier, known.get(space.name, {}), workers, deadline, scratch
            )
            r["wall"] = time.monotonic() - ts
            results.append(r)
            print(
                f"{args.id} {space.name}: cases={r['cases']} transitions={r['transitions']}"
                f" states={len(r['states'])} known={len(r['known'])}"
                f" {'CAPPED ' if r['capped'] else ''}{r['wall']:.1f}s",
                flush=True,
            )
            if r["violations"]:
                bad = (space, r["violations"][0])
                break
        for r in results:
            for key in sorted(set(r["known"])):
                print(
                    f"KNOWN-FINDING: property={args.id} space={r['space']} case={key}"
                    f" {known[r['space']][key]}"
                )
        rc = 0
        if bad:
            rc = 1
            report(args, core, bad, scratch, workers)
        wall = time.monotonic() - t0
        if not args.no_evidence and not args.space:
            evidence(args, mod, core, level, results, wall, bad)
        print(f"{args.id}: {'VIOLATED' if bad else 'held'} in {wall:.1f}s")
        return rc
    finally:
        os.chdir("/")
        shutil.rmtree(scratch, ignore_errors=True)


def report(args, core, bad, scratch, workers):
    space, v = bad
    alone = core.replay_in_child(space, args.tier, v["index"], 0, 1, scratch, False)
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    path = os.path.join(HERE, "replays", f"{args.id}.json")
    record = {
        "property": args.id,
        "space": space.name,
        "tier": args.tier,
        "index": v["index"],
        "case": v["case"],
        "what": v["what"],
        "detail": v["detail"],
        "reproduced_in_a_fresh_process": alone is not None,
        "workers": workers,
        "how_to_replay": f"python3 run_check.py {args.id} --replay {path}",
    }
    with open(path, "w") as f:
        json.dump(record, f, indent=1)
    print(f"  case: {json.dumps(v['case'])[:2000]}")
    print(f"  what: {v['what'][:2000]}")
    for key, val in v["detail"].items():
        print(f"  {key}: {val if isinstance(val, str) and key=='traceback' else repr(val)[:2000]}")
    print(f"VIOLATION property={args.id} replay={path}", flush=True)


def replay(args, core, spaces, scratch):
    with open(args.replay) as f:
        rec = json.load(f)
    space = [s for s in spaces if s.name == rec["space"]][0]
    for prefix in (False, True):
        for k in range(rec["workers"] if prefix else 1):
            if prefix and not core.mine(rec["index"], k, rec["workers"]):
                continue
            v = core.replay_in_child(
                space, rec["tier"], rec["index"], k, rec["workers"], scratch, prefix
            )
            if v:
                print(json.dumps({"after_worker_history": prefix, **v}, indent=1))
                print(f"VIOLATION property={rec['property']} replay={args.replay}")
                return 1
    print("the recorded case no longer violates the property")
    return 0


def evidence(args, mod, core, level, results, wall, bad):
    states = set()
    for r in results:
        states |= {(r["space"], s) for s in r["states"]}
    cases = sum(r["cases"] for r in results)
    transitions = sum(r["transitions"] for r in results)
    capped = any(r["capped"] for r in results)
    per_space = [
        {
            "space": r["space"],
            "explores": r["doc"],
            "cases": r["cases"],
            "transitions": r["transitions"],
            "states": len(r["states"]),
            "known_findings": len(r["known"]),
            "capped": r["capped"],
            "wall_s": round(r["wall"], 2),
        }
        for r in results
    ]
    samples = [{"space": r["space"], "case": c} for r in results for c in r["samples"][:3]]
    cov = {
        "samples": samples,
        "spaces": per_space,
        "exhaustive": not capped and not bad,
    }
    if level == "fault_enumeration":
        cov.update(
            evaluations=cases,
            distinct_nontrivial=len(states),
            rule=mod.RULE,
            fault_steps=transitions,
        )
    else:
        cov.update(
            states=len(states),
            transitions=transitions,
            traces_validated_against_impl=cases,
        )
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", f"{args.id}.json"), "w") as f:
        json.dump(
            {
                "property": args.id,
                "tier": args.tier,
                "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
                "level": level,
                "coverage": cov,
                "assumptions": getattr(mod, "ASSUMPTIONS", []),
                "wall_s": round(wall, 2),
                "violations": 1 if bad else 0,
            },
            f,
            indent=1,
        )


if __name__ == "__main__":
    reexec()
    sys.exit(main())
