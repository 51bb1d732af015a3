"""C14 -- release, expanded_release, set_version_and_release(), bump_release()."""
import itertools

import rpm

from mc.core import FnSpace, require, same
from mc.lib import TAIL, Oracle, load, words

ASSUMPTIONS = [
    "RPM 4.18.2 (labelCompare) defines when a release is newer",
    "the reference for bumping is the documented behaviour of rpmdev-bumpspec",
]

DISTS = ["%{?dist}", "%{dist}", "%dist"]
DIGITS = "0123456789"


def leading_digits(s):
    n = 0
    while n < len(s) and s[n] in DIGITS:
        n += 1
    return s[:n], s[n:]


def ref_bump(s):
    """rpmdev-bumpspec: N and 0.N are incremented, unless N is followed by a pre-release; otherwise a minor release is incremented or added"""
    func, rest = "", s
    if s.startswith("%release_func ") or s.startswith("%release_func\t"):
        rest = s[len("%release_func"):].lstrip(" \t")
        func = s[: len(s) - len(rest)]
    pre = ""
    if rest.startswith("0.") and rest[2:3] and rest[2] in DIGITS:
        pre, rest = "0.", rest[2:]
    number, post = leading_digits(rest)
    if number and (pre or not ("rc" in post or "alpha" in post or "beta" in post)):
        return func + pre + str(int(number) + 1) + post
    head, dot, tail = s.rpartition(".")
    if head and dot and tail and not tail.strip(DIGITS):
        return head + "." + str(int(tail) + 1)
    return s + ".1"


def ref_split(s):
    """release and dist parts of a Release tag"""
    head, digits = s, ""
    while head and head[-1] in DIGITS:
        head, digits = head[:-1], head[-1] + digits
    candidates = [s]
    if digits and head.endswith("."):
        candidates.append(head[:-1])
    for c in candidates:
        for d in DISTS:
            if c.endswith(d):
                return c[: -len(d)], d
    return s, ""


def evaluate(s):
    """what RPM makes of a Release built from the alphabet (dist is .el9, rel is 5)"""
    for d in DISTS:
        s = s.replace(d, ".el9")
    s = s.replace("%{rel}", "5").replace("%{?rel}", "5")
    return s.replace("%release_func", "").strip()


def newer(old, new):
    return rpm.labelCompare(("0", "0", old), ("0", "0", new)) < 0


BASE = ["%global rel 5", "Name: test", "Version: 1", "Release: 1", "Summary: s", "License: l"] + TAIL

# --- every Release string of the alphabet ----------------------------------------------------

ATOMS = ["0.", "1", "09", ".", "rc", "beta", "alpha", "a", "%{?dist}", "%{rel}", "%release_func ", "~", "src"]
ATOMS2 = ["0.", "1", "99", ".", "rc", "b", "%{?dist}", "%{?rel}", "%dist", "^"]


def bump_cases(tier):
    n = 1 if tier == "quick" else 3
    for w in words(ATOMS, 0, n):
        yield [list(w), "A"]
    for w in words(ATOMS2, 0, n):
        yield [list(w), "B"]
    if tier == "quick":
        for w in words(["0.", "1", ".", "rc", "%{?dist}"], 2, 2):
            yield [list(w), "B"]


def shared(ctx, key="spec"):
    """One instance per worker; the Release tag is assigned anew for every string."""
    if not hasattr(ctx, "_c14"):
        ctx._c14 = load(ctx, "\n".join(BASE) + "\n")
    return ctx._c14


def bump_run(case, ctx):
    """every Release built from up to 3 (5 in thorough) atoms, two alphabets: three bumps in a row give the releases rpmdev-bumpspec gives, each of them newer for RPM"""
    prefix, which = case
    for last in (ATOMS if which == "A" else ATOMS2):
        for first in (None, "1") if which == "A" else (None, "0.7"):
            s = (first or "") + "".join(prefix) + last
            if not s.strip() or s != s.strip():
                continue
            spec = load_with_release(ctx, s)
            cur = s
            for _ in range(3):
                want = ref_bump(cur)
                spec.bump_release()
                ctx.step()
                same(spec.raw_release, want, "Release after a bump", before=cur)
                same(str(spec), "\n".join(BASE).replace("Release: 1", "Release: " + want) + "\n", "the rest of the spec file", before=cur)
                if "func" not in cur[1:]:
                    a, b = evaluate(cur), evaluate(want)
                    if a and not set(a) & set(" %{}"):
                        require(newer(a, b), "the bumped release is not newer", before=a, after=b)
                cur = want
            ctx.state(s)


def load_with_release(ctx, s):
    spec = shared(ctx)
    spec.raw_release = s
    same(spec.raw_release, s, "Release after assignment")
    return spec


# --- release / dist ---------------------------------------------------------------------------

RATOMS = ["1", "0.7", ".", ".3", "a", "%{?dist}", "%{dist}", "%dist", "%{rel}", "%{?distx}", "%dister", "dist", "%{?rel:2}", "%{!?dist}"]
NEW = ["2", "0.1.rc2", "3%{rel}", "2.5", "\\1\\g<0>$"]


def release_cases(tier):
    for w in words(RATOMS, 0, 1 if tier == "quick" else 2):
        yield list(w)


def release_run(case, ctx):
    """every Release built from up to 2 (3 in thorough) atoms: release is the part before dist, assigning it keeps dist, drops the minor bump and changes nothing else"""
    for last in RATOMS:
        s = "".join(case) + last
        if s.startswith("."):
            continue
        rel, dist = ref_split(s)
        for new in NEW:
            spec = load_with_release(ctx, s)
            same(spec.release, rel, "release", raw=s)
            spec.release = new
            ctx.step()
            same(spec.raw_release, new + dist, "Release after assignment of release", before=s)
            same(spec.release, new, "release after assignment", before=s)
            same(str(spec), "\n".join(BASE).replace("Release: 1", "Release: " + new + dist) + "\n", "the rest of the spec file", before=s)
        spec = load_with_release(ctx, s)
        spec.set_version_and_release("7.8")
        want = [l for l in BASE]
        want[2], want[3] = "Version: 7.8", "Release: 1" + dist
        same(str(spec), "\n".join(want) + "\n", "set_version_and_release() with the default release", before=s)
        spec.set_version_and_release("%{rel}.1~x", "4")
        want[2], want[3] = "Version: %{rel}.1~x", "Release: 4" + dist
        same(str(spec), "\n".join(want) + "\n", "set_version_and_release()", before=s)
        spec.version = "1"
        ctx.state(s)


# --- whole documents --------------------------------------------------------------------------

DEFS = [
    [],
    ["%global release 3"],
    ["%global baserelease 3"],
    ["%define baserelease 0.3.beta"],
    ["%define  RELEASE  3%{?dist}"],
    ["%dnl %global baserelease 3"],
    ["#global release 3"],
    ["%if 0", "%global baserelease 3", "%else", "%global baserelease 4", "%endif"],
    ["%if 1", "%global baserelease 3", "%else", "%global baserelease 4", "%endif"],
    ["%if 0", "%global baserelease 3", "%endif"],
    ["%global baserelease 4.rc1"],
    ["%global rel 4", "%global baserelease %{rel}"],
    ["%global prerelease 3"],
    ["%global release_name 3"],
    ["%global baserelease 7", "%global other 2"],
    ["%global other 2", "%global baserelease 3%{?x:.x}", "%global baserelease2 1"],
    ["%{!?baserelease:%global baserelease 3}"],
]
TAGS = [
    "1",
    "1%{?dist}",
    "%{baserelease}",
    "%{baserelease}%{?dist}",
    "%{?baserelease}.1",
    "%{?baserelease}%{!?baserelease:2}%{?dist}",
    "0.%{?baserelease}.1",
    "1%{?dist}.2",
    "0.3.rc1%{?dist}",
    "1.rc4",
    "%autorelease",
    "%{autorelease}",
    "%{?autorelease}%{!?autorelease:1%{?dist}}",
    "%autorelease -e x",
    "%{?x:%autorelease}%{!?x:3}",
    "%autorelease_x",
    "3%{?autoreleases}",
    "%{autorelease -b 3}",
    "2%{?x:%{?autorelease}}",
]
AUTO = {10, 11, 12, 13, 14, 17, 18}


def doc_cases(tier):
    for d in range(len(DEFS)):
        for t in range(len(TAGS)):
            for tail in range(2):
                yield [d, t, tail]


def doc_run(case, ctx):
    """every set of macro definitions that may define the release x every notation of Release: the definition in effect is bumped, else the tag; exactly one line changes, none with %autorelease, and RPM reads a newer release"""
    d, t, tail = case
    defs, tag = DEFS[d], TAGS[t]
    lines = list(defs) + ["Name: test", "Version: 1", "Release:  " + tag, "Summary: s", "License: l"]
    if tail:
        lines[0:0] = ["# Release: 5", "%global Release_x 1"]
        lines += ["%package sub", "Release: 9", "Summary: y", "%description sub", "z"]
    lines += TAIL
    text = "\n".join(lines) + "\n"
    if Oracle.parse(text, ctx.fresh_dir()) is None:
        ctx.state("rejected by RPM")
        return
    spec = load(ctx, text, force_parse=True)
    same(spec.has_autorelease, t in AUTO, "has_autorelease", tag=tag)
    # the line that has to change
    target = None
    if t not in AUTO:
        skip = False
        for i, l in enumerate(lines):
            if l.startswith("%if"):
                skip = l == "%if 0"
            elif l == "%else":
                skip = not skip
            elif l == "%endif":
                skip = False
            elif not skip and l.split()[0] in ("%global", "%define", "%{!?baserelease:%global") and l.split()[1].lower() in ("release", "baserelease"):
                if l.startswith("%{"):
                    break
                body = l.split(None, 2)[2]
                target = (i, l[: len(l) - len(body)] + ref_bump(body))
                break
        if target is None:
            i = next(i for i, l in enumerate(lines) if l.startswith("Release: "))
            target = (i, "Release:  " + ref_bump(tag))
        if any(l.startswith("%{") for l in defs):
            ctx.state("inline definition")
            return
    want = list(lines)
    if target:
        want[target[0]] = target[1]
    spec.bump_release()
    ctx.step()
    got = str(spec).split("\n")[:-1]
    same(got, want, "spec file after bump_release()", before=lines)
    used = target and (target[0] == next(i for i, l in enumerate(lines) if l.startswith("Release: ")) or "baserelease}" in tag and "baserelease" in lines[target[0]])
    if used and "autorelease" not in tag:
        d = ctx.fresh_dir()
        if Oracle.parse(text, d) is None:
            return
        a = Oracle.parse(text, d).sourceHeader[rpm.RPMTAG_RELEASE]
        o = Oracle.parse("\n".join(got) + "\n", d)
        require(o is not None, "RPM rejects the bumped spec file", before=lines, after=got)
        b = o.sourceHeader[rpm.RPMTAG_RELEASE]
        if "%" not in a:
            require(newer(a, b), "the bumped release is not newer for RPM", before=a, after=b, lines=got)
        same(spec.expanded_raw_release, b, "expanded Release", lines=got)
    ctx.state(tuple(got))


# --- expanded values --------------------------------------------------------------------------

XDEFS = [[], ["%global rel 4"], ["%global rel 4%{?dist}"], ["%global rel 4", "%global tail %{?dist}"], ["%define dist .my", "%global rel 2"], ["%global dist .my"]]
XTAGS = ["1", "1%{?dist}", "1%{dist}", "1%dist", "%{?rel}%{!?rel:3}%{?dist}", "1%{?rel}", "3%{?tail}%{?dist}", "2%{?dist}.7", "2%{?dist}.x", "%{?dist:1}%{!?dist:2}%{?dist}"]


def expanded_cases(tier):
    for d in range(len(XDEFS)):
        for t in range(len(XTAGS)):
            for order in range(3):
                yield [d, t, order]


def expanded_run(case, ctx):
    """every set of definitions x every Release: expanded_raw_release is what RPM reads, expanded_release is the release expanded with dist empty, and neither influences the other"""
    defs, tag, order = XDEFS[case[0]], XTAGS[case[1]], case[2]
    lines = defs + ["Name: test", "Version: 1", "Release: " + tag, "Summary: s", "License: l"] + TAIL
    text = "\n".join(lines) + "\n"
    d = ctx.fresh_dir()
    if Oracle.parse(text, d) is None:
        ctx.state("rejected by RPM")
        return
    raw = rpm.expandMacro("%{release}")
    rel, dist = ref_split(tag)
    nodist = "\n".join(lines).replace("Release: " + tag, "Release: 1") + "\n"
    Oracle.parse(nodist, d, [("dist", "")])
    plain = rpm.expandMacro(rel)
    spec = load(ctx, text)
    for what in [("r", "p"), ("p", "r"), ("p", "p", "r", "r", "p")][order]:
        if what == "r":
            same(spec.expanded_raw_release, raw, "expanded_raw_release", lines=lines)
        else:
            same(spec.expanded_release, plain, "expanded_release", lines=lines)
        ctx.step()
    same(str(spec), text, "content")
    ctx.state(raw, plain)


SPACES = [
    FnSpace("strings", bump_cases, bump_run),
    FnSpace("release", release_cases, release_run),
    FnSpace("documents", doc_cases, doc_run),
    FnSpace("expanded", expanded_cases, expanded_run),
]
