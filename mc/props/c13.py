"""C13 -- update_tag(), update_value(), update_version(): the tag gets the requested value."""
import itertools
import re

import rpm

from mc.core import FnSpace, Violation, require, same
from mc.lib import HEADER, TAIL, Oracle, load
from specfile.exceptions import SpecfileException
from specfile.macro_definitions import CommentOutStyle

ASSUMPTIONS = [
    "RPM 4.18.2 (the installed bindings) defines what a tag expands to",
    "the requested value contains no macros, macros are not redefined after the tag",
]

A = [
    "%global a 1",
    "%dnl %global a 1",
    None,
    "%global a 0\n%global a 1.2",
    "%if 1\n%global a 3\n%else\n%global a 4\n%endif",
    "#%global a 7",
    "%define a x",
    "%if 0\n%global a 3\n%endif",
]
B = [
    "%global b 2",
    "%global b %{a}",
    "%global b %{?a:%{a}.}3",
    "%global b %{!?a:9}8",
    "%dnl %global b 6",
    None,
    "%global b %{a}.5",
    "%global b 4%{?a}",
]
VERSIONS = [
    "1.0",
    "%{a}",
    "%a.0",
    "%{?a}1",
    "%{a}.%{b}",
    "%{b}.%{a}",
    "%{a}%{b}",
    "1.%{b}",
    "%{b}~%{?a}",
    "%{?a:%{a}.}2",
    "%{!?a:3}1",
    "1%{?b:.%{b}}",
    "%{?b:1.%{a}}%{!?b:2}",
    "5%{!?u:.0}",
    "%{a}.%{a}",
    "%{?dist:6}.%{b}",
    "%{?u:%{u}}5",
    "%{lower:%{a}}.1",
    "%{b}.%(echo 1)",
    "%[1+1].%{b}",
    "%{?a:x}%{?b:y}2",
    "%{expand:%{b}}.%{b}",
    "%{name}.%{b}",
    "%{NAME}.%{a}",
]
REQUESTS = ["2.3", "1", "7~rc1", "2.3.4", "1.2", "1.0", "5.0", "6.2", "x1", "test.4", "12", "1.1", "5"]


def tag_cases(tier):
    na, nb, nr = (5, 6, 4) if tier == "quick" else (len(A), len(B), len(REQUESTS))
    for v in range(len(VERSIONS)):
        for a in range(na):
            for b in range(nb):
                for r in range(nr):
                    yield [a, b, v, r]


def twice_cases(tier):
    na, nb, nr = (3, 5, 3) if tier == "quick" else (6, 6, 5)
    for v in range(len(VERSIONS)):
        for a in range(na):
            for b in range(nb):
                for r, r2 in itertools.permutations(range(nr), 2):
                    yield [a, b, v, r, r2]


def document(a, b, v):
    defs = [l for x in (A[a], B[b]) if x for l in x.split("\n")]
    lines = defs + ["Name: test", f"Version: {VERSIONS[v]}", "Release: 1", "Summary: s", "License: l", "Source0: x-%{version}.tar", "%global after 1"] + TAIL
    return lines, len(defs)


def tag_run(case, ctx):
    """every pair of macro definitions x every Version notation x every requested version: RPM then reads exactly the requested version, and nothing but the definitions and the tag changes"""
    a, b, v, *rs = case
    lines, ndefs = document(a, b, v)
    text = "\n".join(lines) + "\n"
    d = ctx.fresh_dir()
    o = Oracle.parse(text, d)
    if o is None:
        ctx.state("rejected by RPM")
        return
    before = rpm.expandMacro("%{version}")
    spec = load(ctx, text)
    same(spec.expanded_version, before, "expanded version before", lines=lines)
    for r in rs:
        request = REQUESTS[r]
        spec.update_tag("Version", request)
    ctx.step()
    after = str(spec)
    got = after.split("\n")[:-1]
    same(spec.expanded_version, request, "expanded version", before=lines, after=got)
    require(Oracle.parse(after, d) is not None, "RPM rejects the updated spec file", before=lines, after=got)
    same(rpm.expandMacro("%{version}"), request, "version RPM reads", before=lines, after=got)
    same(len(got), len(lines), "number of lines", after=got)
    for i, (old, new) in enumerate(zip(lines, got)):
        if old.startswith("Version:") or i < ndefs and "%global" in old or "%define" in old:
            continue
        same(new, old, "an unrelated line changed", before=lines, after=got)
    ctx.state(tuple(got))


# --- substitutions are preserved where the shape allows it ---------------------------------

REFS = ["%{{{}}}", "%{{?{}}}", "%{}"]
SHAPES = [
    # (definitions, Version, parts of the value)
    (["%global a 1"], "{a}", ["a"]),
    (["%global a 1", "%global b 2"], "{a}.{b}", ["a", ".", "b"]),
    (["%global a 1", "%global b 2", "%global c 3"], "{a}.{b}.{c}", ["a", ".", "b", ".", "c"]),
    (["%global a 1", "%global b 2"], "{a}^{b}", ["a", "^", "b"]),
    (["%global a 1", "%global b 2", "%global v {a}.{b}"], "{v}", ["a", ".", "b"]),
    (["%global a 1", "%global v {a}", "%global w {v}"], "{w}", ["a"]),
    (["%global a 1", "%global b 2", "%global v {a}~{b}"], "0.{v}", ["0.", "a", "~", "b"]),
    (["%global a 0", "%global a 1", "%global b 5", "%global b 2"], "{a}.{b}", ["a", ".", "b"]),
    (["%if 0", "%global a 9", "%else", "%global a 1", "%endif"], "{a}.0", ["a", ".0"]),
    (["%global pkgname test", "%global a 1"], "%{pkgname}.{a}", ["test.", "a"]),
    (["%global a 1", "%global pre rc1"], "{a}%{?pre:~{pre}}", ["a", "~", "pre"]),
    (["%global a 1", "%dnl %global pre rc1"], "{a}%{?pre:~{pre}}", ["a", "~", "pre"]),
    (["%global a 1", "#global pre rc1"], "{a}%{?pre:~{pre}}", ["a", "~", "pre"]),
]
PARTS = ["7", "11", "x", "0"]


def preserve_cases(tier):
    for s in range(len(SHAPES)):
        macros = [p for p in SHAPES[s][2] if p.isalpha()]
        for ref in range(len(REFS)):
            for values in itertools.product(PARTS if tier != "quick" else PARTS[:3], repeat=len(macros)):
                yield {"shape": s, "ref": ref, "values": list(values)}


def last_definitions(lines):
    """name -> (index, body, commented out) of the last definition that is not in %if 0"""
    out = {}
    skip = False
    for i, l in enumerate(lines):
        skip = (skip or l == "%if 0") and l not in ("%else", "%endif")
        m = re.match(r"^(#|%dnl)?\s*%?(?:global|define) (\w+) (.*)$", l)
        if m and not skip:
            out[m[2]] = (i, m[3], bool(m[1]))
    return out


def preserve_run(case, ctx):
    """every Version composed of separated references to literal macros, directly or through other macros: a request of the same shape leaves the tag as it is and updates exactly those macros"""
    defs, version, parts = SHAPES[case["shape"]]
    names = {n: REFS[case["ref"]].format(n) for n in ("a", "b", "c", "v", "w", "pre")}

    def fill(s):
        return re.sub(r"\{(a|b|c|v|w|pre)\}", lambda m: names[m[1]], s)

    if case["ref"] == 2 and "%{?pre" in version:
        return
    lines = [fill(l) for l in defs] + ["Name: test", "Version: " + fill(version), "Release: 1", "Summary: s", "License: l"] + TAIL
    values = dict(zip([p for p in parts if p.isalpha()], case["values"]))
    request = "".join(values.get(p, p) for p in parts)
    text = "\n".join(lines) + "\n"
    d = ctx.fresh_dir()
    spec = load(ctx, text)
    spec.update_tag("Version", request)
    ctx.step()
    got = str(spec).split("\n")[:-1]
    same(len(got), len(lines), "number of lines", after=got)
    before, after = last_definitions(lines), last_definitions(got)
    for n, v in values.items():
        same(after.get(n), (before[n][0], v, False), f"definition of {n}", before=lines, after=got, request=request)
    changed = {before[n][0] for n in values}
    for i, (old, new) in enumerate(zip(lines, got)):
        if i not in changed:
            same(new, old, "a line other than the definitions changed", before=lines, after=got, request=request)
    require(Oracle.parse(str(spec), d) is not None, "RPM rejects the updated spec file", after=got)
    same(rpm.expandMacro("%{version}"), request, "version RPM reads", before=lines, after=got)
    ctx.state(tuple(got))


# --- the same through tags and past definitions of several lines -----------------------------------

TAG_REFS = ["%{{{}}}", "%{{?{}}}", "%{}"]
TAG_SHAPES = [
    # (definitions, Version, URL, Source0, request, what must be updated)
    ([], "1.0", "http://o.org", "x-{version}.tar", "x-7.2.tar", {"Version": "7.2"}),
    ([], "1.0", "http://o.org", "{url}/x.tar", "http://n.org/x.tar", {"URL": "http://n.org"}),
    ([], "1.0", "http://o.org", "{url}/x-{version}.tar", "http://n.org/x-7.tar", {"URL": "http://n.org", "Version": "7"}),
    (["%global a 1", "%global b 2"], "%{a}.%{b}", "u", "x-{version}.tar", "x-3.4.tar", {"a": "3", "b": "4"}),
    (["%global b 2", "%global a %{!?x:1}%{?x:\n}", "%global c 3"], "%{b}.%{a}.%{c}", "u", "x-{version}.tar", "x-7.8.9.tar", {"b": "7", "a": "8", "c": "9"}),
    (["%global a %{!?x:1}%{?x:\n}", "%global c 3"], "%{a}", "%{c}", "x-{version}-{url}.tar", "x-8-n.tar", {"a": "8", "c": "n"}),
    (["%global a %{!?x:1}%{?x:\n}"], "%{a}", "u", "x-{version}-{url}.tar", "x-8-n.tar", {"a": "8", "URL": "n"}),
    (["%global a 1", "#global c 3"], "%{a}%{?c:.%{c}}", "u", "x-{version}.tar", "x-7.8.tar", {"a": "7", "c": "8"}),
]


def through_cases(tier):
    for s in range(len(TAG_SHAPES)):
        for ref in range(len(TAG_REFS)):
            for upper in (False, True):
                yield {"shape": s, "ref": ref, "upper": upper}


def through_run(case, ctx):
    """every Source0 composed of references to tags, in lower and upper case, which are literal or composed of macros, some defined on several lines: a request of the same shape leaves Source0 as it is and updates exactly those tags or macros"""
    defs, version, url, source, request, updates = TAG_SHAPES[case["shape"]]

    def fill(s):
        for n in ("version", "url"):
            ref = TAG_REFS[case["ref"]].format(n.upper() if case["upper"] else n)
            if case["ref"] == 2:
                s = re.sub(r"\{%s\}(?=\w)" % n, "%%{%s}" % n, s)
            s = s.replace("{%s}" % n, ref)
        return s

    items = [("%global", d) for d in defs] + [
        ("Name", "test"), ("Version", fill(version)), ("Release", "1"), ("Summary", "s"), ("License", "l"), ("URL", fill(url)), ("Source0", fill(source)),
    ]

    def render(updated):
        out = []
        for k, v in items:
            if k == "%global":
                name = v.split()[1]
                out.append(f"%global {name} {updated[name]}" if name in updated else v)
            else:
                out.append(f"{k}: {updated.get(k, v)}")
        return "\n".join(out + TAIL) + "\n"

    d = ctx.fresh_dir()
    require(Oracle.parse(render({}), d) is not None, "the oracle rejects the document", text=render({}))
    spec = load(ctx, render({}))
    spec.update_tag("Source0", request)
    ctx.step()
    same(str(spec).split("\n"), render(updates).split("\n"), "content after the update", before=render({}).split("\n"), request=request)
    o = Oracle.parse(str(spec), d)
    same(o.sources[0][0], request, "source RPM reads")
    ctx.state(str(spec))


# --- other tags -----------------------------------------------------------------------------

TAGS = [
    ("Source0", "https://x/%{name}-%{version}.tar.gz"),
    ("Source0", "%{url}/v%{version}/%{name}-%{version}.tar.gz"),
    ("Source0", "%{url}/%{NAME}-%{VERSION}.tar"),
    ("Source0", "x-%{a}.%{b}.tar#/%{name}.tar"),
    ("URL", "http://%{name}.org/$x"),
    ("Release", "%{a}%{?dist}"),
    ("Release", "3.%{b}"),
    ("Summary", "The %{name} %{a}"),
    ("Epoch", "%{b}"),
]
TAG_VALUES = [
    "https://x/test-2.3.tar.gz",
    "https://x/other-2.3.tar.gz",
    "http://new.org/v2.3/test-2.3.tar.gz",
    "http://test.org/v4/test-5.tar.gz",
    "http://old.org/test-3.tar",
    "x-4.5.tar#/test.tar",
    "http://test.org/$y",
    "5%{?dist}",
    "3.7",
    "The test 8",
    "9",
    "The  $a \\1 \\g<0>",
]


def other_cases(tier):
    for t in range(len(TAGS)):
        for v in range(len(TAG_VALUES)):
            for protected in (None, ".*"):
                yield {"tag": t, "value": v, "protected": protected}


def other_run(case, ctx):
    """every other tag built from macros and tags x every requested value, with default and with full protection: the tag expands to the requested value, protected entities keep theirs"""
    name, old = TAGS[case["tag"]]
    value = TAG_VALUES[case["value"]]
    if name == "Epoch" and not value.isdigit() or name == "Release" and not value.startswith(("5", "3", "9")):
        return
    if " " in value and name != "Summary":
        return  # single token only
    defs = ["%global a 1", "%global b 2"]
    tags = [["Name", "test"], ["Version", "1.0"], ["Release", "1"], ["Summary", "s"], ["License", "l"], ["URL", "http://old.org"]]
    tags = [t for t in tags if t[0] != name] + [[name, old]]
    lines = defs + [": ".join(t) for t in tags] + TAIL
    text = "\n".join(lines) + "\n"
    d = ctx.fresh_dir()
    spec = load(ctx, text)
    kw = {} if case["protected"] is None else {"protected_entities": case["protected"]}
    spec.update_tag(name, value, **kw)
    ctx.step()
    got = str(spec).split("\n")[:-1]
    same(len(got), len(lines), "number of lines", after=got)
    with spec.tags() as t:
        same(getattr(t, name.lower()).expanded_value, spec.expand(value), "expanded value", before=lines, after=got)
    o = Oracle.parse(str(spec), d)
    require(o is not None, "RPM rejects the updated spec file", before=lines, after=got)
    want = rpm.expandMacro(value)
    if name == "Source0":
        same(o.sources[0][0], want, "source RPM reads", after=got)
    else:
        tag = {"URL": rpm.RPMTAG_URL, "Release": rpm.RPMTAG_RELEASE, "Summary": rpm.RPMTAG_SUMMARY, "Epoch": rpm.RPMTAG_EPOCH}[name]
        same(str(o.sourceHeader[tag]), want, "value RPM reads", after=got)
    for i, (a, b) in enumerate(zip(lines, got)):
        if a.startswith(("Name", "Release" if name != "Release" else "Name", "License", "%desc")) or case["protected"] and not a.startswith(name):
            same(b, a, "a line that must not change changed", before=lines, after=got)
    ctx.state(tuple(got))


# --- requests that refer to macros and tags ----------------------------------------------------

REF_OLD = ["1.0", "%{a}", "%a", "%{?a}", "%{a}.0", "1.%{a}", "%{?a:%{a}.}7", "%{?a:%{b}}", "%{a}.%{b}", "%{b}", "%{name}", "%{NAME}.1"]
REF_NEW = [
    "%{a}", "%a.1", "%{a}.1", "2.%{?a}", "%{?a:3}", "%{!?a:3}4", "%{?b:%{a}.}1", "%{?b:%{?c:9}%{a}}", "%{b}.%{a}", "%{name}1", "%{NAME}", "%{?name:%{b}}5",
    "%{expand:%{a}4}", "%(echo %{a})", "%[%{a}+1]", "%{c}", "%{a}.%{c}", "%%{a}",
]


def reference_cases(tier):
    for tag in ("Version", "URL", "Summary"):
        for o in range(len(REF_OLD)):
            for n in range(len(REF_NEW)):
                for layout in range(3):
                    yield {"tag": tag, "old": o, "new": n, "layout": layout}


def reference_run(case, ctx):
    """every tag notation x every requested value that itself refers to macros or tags: the tag then has the requested value, and whatever the value refers to is what it was"""
    old, new = REF_OLD[case["old"]], REF_NEW[case["new"]]
    if case["tag"] == "Version" and new == "%%{a}":
        return
    defs = [
        ["%global a 1", "%global b 2", "%global c 3"],
        ["%global a 1", "%global b %{a}5", "%global c %{b}"],
        ["%global c 3", "%global b 2", "%global a 1%{c}"],
    ][case["layout"]]
    tags = [["Name", "test"], ["Version", "1.0"], ["Release", "1"], ["Summary", "s"], ["License", "l"], ["URL", "u"]]
    tags = [t for t in tags if t[0] != case["tag"]] + [[case["tag"], old]]
    lines = defs + [": ".join(t) for t in tags] + TAIL
    text = "\n".join(lines) + "\n"
    d = ctx.fresh_dir()
    require(Oracle.parse(text, d) is not None, "the oracle rejects the document", lines=lines)
    want = rpm.expandMacro(new)
    spec = load(ctx, text)
    spec.update_tag(case["tag"], new)
    ctx.step()
    got = str(spec).split("\n")[:-1]
    same(len(got), len(lines), "number of lines", after=got)
    o = Oracle.parse(str(spec), d)
    require(o is not None, "RPM rejects the updated spec file", before=lines, after=got, request=new)
    tag = {"URL": rpm.RPMTAG_URL, "Version": rpm.RPMTAG_VERSION, "Summary": rpm.RPMTAG_SUMMARY}[case["tag"]]
    same(o.sourceHeader[tag], want, "value RPM reads", before=lines, after=got, request=new)
    for i, (a, b) in enumerate(zip(lines, got)):
        if not a.startswith(("%global", case["tag"])):
            same(b, a, "an unrelated line changed", before=lines, after=got)
    ctx.state(tuple(got))


# --- pre-releases ---------------------------------------------------------------------------

PATTERNS = [
    None,
    r"([.\-_~^]?)(a|b|rc)\d+",
    r"([.\-_~^]?)(alpha|beta|rc)(\.?\d+)?",
]
PRE_DOCS = [
    (["%global base 1.0", "%global pre rc1"], "%{base}%{?pre:~%{pre}}"),
    (["%global base 1.0", "%dnl %global pre rc1"], "%{base}%{?pre:~%{pre}}"),
    (["%global base 1.0", "#global pre rc1"], "%{base}%{?pre:~%{pre}}"),
    (["%global base 1.0"], "%{base}"),
    ([], "1.0"),
    ([], "1.0~rc1"),
    (["%global pre rc1"], "1.0%{?pre:~%{pre}}"),
    (["%global pre rc1"], "1.0"),
    (["#global pre rc1"], "1.0"),
    (["%dnl %global pre rc1"], "1.0"),
    (["%global prebase 2", "%global pre rc1"], "%{prebase}%{?pre:~%{pre}}"),
]
PRE_VERSIONS = ["2.0", "2.0rc3", "2.0.rc3", "2.0-beta2", "2.0~rc1", "2.0RC2", "2.0a1", "2", "2rc", "1.0.1.b2"]


def pre_cases(tier):
    for d in range(len(PRE_DOCS)):
        for v in range(len(PRE_VERSIONS)):
            for p in range(len(PATTERNS)):
                for macro in (None, "pre"):
                    for style in ("DNL", "HASH", "OTHER") if macro and p else ("DNL",):
                        yield {"doc": d, "version": v, "pattern": p, "macro": macro, "style": style}


def pre_expected(version, p):
    """The version with the suffix recognised by the pattern separated by a tilde."""
    if p == 0:
        return version, False
    if p == 1:
        m = re.search(r"[.\-_~^]?(?:a|b|rc)\d+$", version, re.I)
    else:
        m = re.search(r"[.\-_~^]?(?:alpha|beta|rc)(?:\.?\d+)?$", version, re.I)
    if not m:
        return version, False
    return version[: m.start()] + "~" + m[0].lstrip(".-_~^"), True


def pre_run(case, ctx):
    """every spec layout x version x pattern x macro x style of update_version(): RPM reads the version with the pre-release suffix after a tilde, and the macro is enabled exactly for pre-releases"""
    defs, version = PRE_DOCS[case["doc"]]
    lines = defs + ["Name: test", "Version: " + version, "Release: 1", "Summary: s", "License: l"] + TAIL
    text = "\n".join(lines) + "\n"
    request = PRE_VERSIONS[case["version"]]
    want, pre = pre_expected(request, case["pattern"])
    if "-" in want:
        return  # not a version RPM accepts
    d = ctx.fresh_dir()
    spec = load(ctx, text)
    if case["pattern"] and case["style"] == "DNL":
        # a pattern without a group is invalid, and nothing happens
        bad = PATTERNS[case["pattern"]].replace("([", "(?:[").replace("(a", "(?:a").replace("(\\.", "(?:\\.")
        try:
            spec.update_version(request, bad, case["macro"])
            require(not pre, "an invalid pattern was accepted", pattern=bad)
        except SpecfileException:
            require(pre, "a pattern was rejected", pattern=bad)
            same(str(spec), text, "content after an invalid pattern")
        spec = load(ctx, text)
    spec.update_version(request, PATTERNS[case["pattern"]], case["macro"], CommentOutStyle[case["style"]])
    ctx.step()
    got = str(spec).split("\n")[:-1]
    same(len(got), len(lines), "number of lines", after=got)
    same(spec.expanded_version, want, "expanded version", before=lines, after=got, request=request)
    require(Oracle.parse(str(spec), d) is not None, "RPM rejects the updated spec file", after=got)
    same(rpm.expandMacro("%{version}"), want, "version RPM reads", before=lines, after=got, request=request)
    defined = rpm.expandMacro("%{?pre:1}") == "1"
    if case["macro"] and case["pattern"] and any("global pre" in l for l in defs):
        same(defined, pre, "whether the pre-release macro is defined", before=lines, after=got, request=request)
    for a, b in zip(lines, got):
        if not a.startswith("Version") and "global" not in a:
            same(b, a, "an unrelated line changed", before=lines, after=got)
        if "global pre" in a and not pre and (a.startswith(("#", "%dnl")) or not (case["macro"] and case["pattern"])) and "%{?pre" not in version:
            same(b, a, "a definition that already was as required changed", before=lines, after=got)
    ctx.state(tuple(got))


SPACES = [
    FnSpace("preserve", preserve_cases, preserve_run),
    FnSpace("tags", tag_cases, tag_run),
    FnSpace("twice", twice_cases, tag_run, doc="two updates in a row: the tag has the value requested last, and nothing but the definitions and the tag changes"),
    FnSpace("other", other_cases, other_run),
    FnSpace("through", through_cases, through_run),
    FnSpace("references", reference_cases, reference_run),
    FnSpace("prerelease", pre_cases, pre_run),
]
