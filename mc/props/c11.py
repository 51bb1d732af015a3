"""C11 -- expansions always reflect the current content and parameters of their own instance."""
import copy
import gc
import itertools
import os

import rpm

from mc.core import FnSpace, Violation, require, same
from mc.lib import Oracle, load, read, write
from specfile import Specfile
from specfile.exceptions import RPMException

ASSUMPTIONS = [
    "one process and thread; files read during parsing (%include, %{load:}) do not change between expansions",
    "nothing but the instances changes the global macro context of RPM",
]

DOC = """%global m {m}
%global only_{i} {i}
Name: test
Version: 1.%{{m}}%{{?x:.%{{x}}}}
Release: 1
Summary: s
License: l
Source0: {i}-%{{version}}.tar.gz
Patch0: {i}.patch
%if 0%{{?x:1}}
URL: u
%endif
%description
d
%prep
%patch 0 -p1
"""


class Model:
    """What one instance must report."""

    def __init__(self, ctx, i, directory):
        self.ctx, self.i = ctx, i
        # directories that differ in one place only
        self.dir = os.path.join(directory, i, "1", "src")
        self.dir2 = os.path.join(directory, i, "2", "src")
        os.makedirs(self.dir)
        os.makedirs(self.dir2)
        self.path = os.path.join(self.dir, "test.spec")
        self.m, self.disk_m = "1", "1"
        self.macros = []
        self.broken = False
        self.sourcedir = self.dir
        write(self.path, self.text())
        self.spec = Specfile(self.path)

    def text(self, m=None):
        return DOC.format(i=self.i, m=m or self.m) + ("%endif\n" if self.broken else "")

    def x(self, extra=()):
        out = None
        for n, v in self.macros + list(extra):
            if n == "x":
                out = v
        return out

    def version(self, extra=()):
        x = self.x(extra)
        return f"1.{self.m}" + (f".{x}" if x is not None else "")


# --- operations: each changes the instance and the model in the same way ------------------------


def op_edit_macro(s):
    s.m = "2"
    with s.spec.macro_definitions() as md:
        md.m.body = "2"


def op_edit_lines(s):
    s.m = "3"
    with s.spec.lines() as lines:
        lines[0] = "%global m 3"


def op_undo(s):
    s.m = "1"
    with s.spec.macro_definitions() as md:
        md.m.body = "1"


def op_x(s):
    s.macros.append(("x", "7"))
    s.spec.macros.append(("x", "7"))


def op_x_none(s):
    s.macros.append(("x", None))
    s.spec.macros.append(("x", None))


def op_x_empty(s):
    # defined, with an empty body
    s.macros.append(("x", ""))
    s.spec.macros.append(("x", ""))


def op_x_clear(s):
    s.macros.clear()
    s.spec.macros.clear()


def op_x_inplace(s):
    # an equally long list with an equally long value
    if s.macros:
        s.macros[-1] = ("x", "8")
        s.spec.macros[-1] = ("x", "8")


def op_sourcedir(s):
    s.sourcedir = s.dir2
    s.spec.sourcedir = s.dir2


def op_break(s):
    s.broken = True
    with s.spec.lines() as lines:
        if lines[-1] != "%endif":
            lines.append("%endif")


def op_mend(s):
    s.broken = False
    with s.spec.lines() as lines:
        if lines[-1] == "%endif":
            lines.pop()


def op_copy(s):
    s.spec = copy.deepcopy(s.spec)


def op_copy_keep(s):
    """goes on with the original while a copy is parsed"""
    other = copy.deepcopy(s.spec)
    with other.macro_definitions() as md:
        md.m.body = "5"
    if not s.broken:
        same(other.expanded_version, "1.5" + (f".{s.x()}" if s.x() is not None else ""), "version of the copy")
    s.keep = other


def op_new(s):
    s.spec.save()
    s.disk_m = s.m
    macros = list(s.spec.macros)
    s.spec = None
    gc.collect()
    try:
        s.spec = Specfile(s.path, sourcedir=s.sourcedir, macros=macros)
    except RPMException:
        require(s.broken, "a good spec file was rejected")
        s.broken = False
        write(s.path, s.text())
        s.spec = Specfile(s.path, sourcedir=s.sourcedir, macros=macros)


def op_drop(s):
    """the instance is deleted"""
    s.spec = None
    gc.collect()


def op_reload(s):
    """the file is changed by somebody else and reloaded"""
    s.broken = False
    s.m = "4"
    write(s.path, s.text())
    s.spec.reload()


def op_extra(s):
    if s.broken:
        raises(s, lambda: s.spec.expand("%{version}", extra_macros=[("x", "9")]))
        return
    same(s.spec.expand("%{version}", extra_macros=[("x", "9")]), s.version([("x", "9")]), "expansion with extra macros")


def op_extra_none(s):
    if s.broken:
        raises(s, lambda: s.spec.expand("%{version}", extra_macros=[("x", None)]))
        return
    same(s.spec.expand("%{version}|%{?x}", extra_macros=[("x", None)]), s.version([("x", None)]) + "|", "expansion with a macro removed")


def op_extra_empty(s):
    if not s.broken:
        same(s.spec.expand("%{version}", extra_macros=[]), s.version(), "expansion with no extra macros")


def raises(s, f):
    try:
        f()
    except RPMException:
        return
    raise Violation("a broken spec file was parsed", content=str(s.spec))


def op_view(s):
    with s.spec.tags() as tags:
        if not s.broken:
            same([t.expanded_value for t in tags if t.name == "Version"], [s.version()], "expanded_value of Version")
            same([t.valid for t in tags if t.name == "URL"], [s.x() is not None], "validity of a conditional tag")


def op_read(s):
    check(s, "read")


OPS = {
    "edit": op_edit_macro,
    "lines": op_edit_lines,
    "undo": op_undo,
    "x": op_x,
    "x-none": op_x_none,
    "x-empty": op_x_empty,
    "x-clear": op_x_clear,
    "x-inplace": op_x_inplace,
    "sourcedir": op_sourcedir,
    "break": op_break,
    "mend": op_mend,
    "copy": op_copy,
    "copy-keep": op_copy_keep,
    "drop": op_drop,
    "new": op_new,
    "reload": op_reload,
    "extra": op_extra,
    "extra-none": op_extra_none,
    "extra-empty": op_extra_empty,
    "view": op_view,
    "read": op_read,
}

READERS = ["expand", "attribute", "rpm_spec", "active", "sources", "tags"]


def check(s, reader="expand"):
    spec = s.spec
    if spec is None:
        return
    x, v = s.x(), s.version()
    same(str(spec), s.text(), "content")
    if s.broken:
        for f in (lambda: spec.expanded_version, lambda: spec.expand("1"), lambda: spec.rpm_spec, lambda: spec.tainted, spec.get_active_macros):
            raises(s, f)
        return
    src = os.path.join(s.sourcedir, f"{s.i}-{v}.tar.gz")
    patch = os.path.join(s.sourcedir, f"{s.i}.patch")
    if reader in ("expand", "read"):
        other = "b" if s.i == "a" else "a"
        same(
            spec.expand("%{version}|%{m}|%{?only_a}|%{?only_b}|%{?x}|%{SOURCE0}|%{PATCH0}|%{patches}|%{sources}|%{_sourcedir}"),
            "|".join([v, s.m, "a" if s.i == "a" else "", "b" if s.i == "b" else "", x or "", src, patch, f"'{patch}' ", f"'{src}' ", s.sourcedir]),
            "expansion", instance=s.i, other=other,
        )
    if reader in ("attribute", "read"):
        same(spec.expanded_version, v, "expanded_version", instance=s.i)
        same(spec.expanded_name, "test", "expanded_name")
        same(spec.tainted, False, "tainted")
    if reader in ("rpm_spec", "read"):
        r = spec.rpm_spec
        same(r.sourceHeader[rpm.RPMTAG_VERSION], v, "version in rpm_spec", instance=s.i)
        same(sorted(n for n, _, _ in r.sources), sorted([f"{s.i}-{v}.tar.gz", f"{s.i}.patch"]), "sources in rpm_spec", instance=s.i)
        same(r.sourceHeader[rpm.RPMTAG_URL], "u" if x is not None else None, "conditional tag in rpm_spec", instance=s.i)
        del r
    if reader in ("active", "read"):
        found = {m.name: m.body for m in spec.get_active_macros() if m.name in ("m", "x", "only_a", "only_b", "version", "_sourcedir")}
        want = {"m": s.m, "only_" + s.i: s.i, "version": v, "_sourcedir": s.sourcedir}
        if x is not None:
            want["x"] = x
        same(found, want, "active macros", instance=s.i)
    if reader in ("sources", "read"):
        with spec.sources() as sources:
            same([(y.expanded_location, y.expanded_filename, y.valid) for y in sources], [(f"{s.i}-{v}.tar.gz",) * 2 + (True,)], "sources", instance=s.i)
    if reader in ("tags", "read"):
        with spec.tags() as tags:
            same([t.expanded_value for t in tags if t.name == "Version"], [v], "expanded_value of Version", instance=s.i)
            same([t.valid for t in tags if t.name == "URL"], [x is not None], "validity of a conditional tag", instance=s.i)


HISTORY_A = ["edit", "lines", "undo", "x", "x-none", "x-inplace", "sourcedir", "break", "mend", "copy", "copy-keep", "new", "reload", "extra", "extra-none", "view", "read"]
HISTORY_B = ["edit", "x", "new", "extra", "read", "break", "copy", "drop"]
SMALL = ["a.edit", "a.undo", "a.x", "a.extra", "a.break", "a.mend", "a.new", "a.read", "b.edit", "b.read", "b.drop"]


def single_cases(tier):
    ops = [o for o in OPS if o != "drop"]
    for k in range(1, 3 if tier == "quick" else 4):
        for w in itertools.product(ops, repeat=k):
            for r in range(len(READERS)):
                yield {"ops": ["a." + o for o in w], "reader": r}


def two_cases(tier):
    ops = ["a." + o for o in HISTORY_A] + ["b." + o for o in HISTORY_B]
    for k in range(1, 3 if tier == "quick" else 4):
        for w in itertools.product(ops, repeat=k):
            if any(o.startswith("b.") for o in w):
                yield {"ops": list(w), "reader": 0}


def deep_cases(tier):
    for w in itertools.product(SMALL, repeat=3 if tier == "quick" else 4):
        yield {"ops": list(w), "reader": 0}


def run(case, ctx):
    d = ctx.fresh_dir()
    objects = {i: Model(ctx, i, d) for i in ("a", "b")}
    history = []
    try:
        for o in case["ops"]:
            history.append(o)
            i, name = o.split(".")
            if objects[i].spec is not None:
                OPS[name](objects[i])
            ctx.step()
        history.append("final reads")
        reader = READERS[case["reader"]]
        last = case["ops"][-1][0]
        first = "b" if last == "a" else "a"
        check(objects[last], reader)
        check(objects[first], reader)
        check(objects[last], "expand")
    except Violation as v:
        v.detail["history"] = history
        raise
    ctx.state(*[(s.m, tuple(s.macros), s.broken, s.sourcedir == s.dir) for s in objects.values()])


def nested_cases(tier):
    for view in ("tags", "macro_definitions", "sections", "lines", "sources", "prep"):
        for o in ("edit", "x", "extra", "new", "read", "break"):
            for o2 in ("read", "view", "extra", "copy"):
                yield [view, o, o2]


def nested_run(case, ctx):
    """every view of one instance held open while another instance is edited, expanded, broken or replaced: expansions on either side are right, during and after"""
    view, o, o2 = case
    d = ctx.fresh_dir()
    a, b = Model(ctx, "a", d), Model(ctx, "b", d)
    with getattr(a.spec, view)():
        OPS[o](b)
        check(b, "expand")
        check(a, "expand")
        OPS[o2](b)
        check(a, "attribute")
        check(b, "attribute")
    check(a, "read")
    check(b, "read")
    ctx.step(2)
    ctx.state(case)


# --- whatever is looked at, the macro context stays the one of the content -----------------------

LINES = [
    "%global y 1",
    "%global y 2",
    "%define y 3",
    "%undefine y",
    "%{!?y:%global y 4}",
    "%{?y:%global z y%{y}}",
    "%if 0%{?y}",
    "%else",
    "%endif",
    "%global z 5",
    "# %{?y} %{?z}",
    "URL: u%{?y}%{?z}",
    "%{lua: rpm.define('w 1')}",
]
TAILS = [
    [],
    ["%package p%{?y}", "Summary: s", "%description p%{?y}", "e"],
    ["%define y 8", "%prep", "%{?y:echo}", "%changelog", "* Mon Jan 01 2024 N <e> - 1-%{?y}", "- x"],
]


def context_cases(tier):
    n = 3 if tier == "quick" else 4
    for k in range(1, n + 1):
        for w in itertools.product(range(len(LINES)), repeat=k):
            t = [LINES[i] for i in w]
            if k == n and len(set(w)) < k:
                continue
            if not balanced(t):
                continue
            yield {"lines": list(w), "tail": len(t) and sum(w) % len(TAILS)}


def balanced(lines):
    depth = []
    for l in lines:
        if l.startswith("%if"):
            depth.append(False)
        elif l == "%else":
            if not depth or depth[-1]:
                return False
            depth[-1] = True
        elif l == "%endif":
            if not depth:
                return False
            depth.pop()
    return not depth


PROBE = "%{?y}|%{?z}|%{?w}|%{version}|%{url}"


def context_run(case, ctx):
    """every sequence of up to 3 (4 in thorough) lines that define, redefine, remove and use macros: after opening every view the macro context is still the one RPM has after parsing the content"""
    body = [LINES[i] for i in case["lines"]]
    lines = ["Name: test", "Version: 1", "Release: 1", "Summary: s", "License: l"] + body + ["%description", "d"] + TAILS[case["tail"]]
    text = "\n".join(lines) + "\n"
    d = ctx.fresh_dir()
    if Oracle.parse(text, d) is None:
        ctx.state("rejected by RPM")
        return
    want = rpm.expandMacro(PROBE)
    try:
        spec = load(ctx, text)
    except RPMException:
        ctx.state("rejected by the strict parse")
        return
    same(spec.expand(PROBE), want, "expansion after loading", lines=lines)
    for view in ("tags", "macro_definitions", "sections", "prep", "sources", "patches", "changelog"):
        with getattr(spec, view)():
            same(spec.expand(PROBE), want, f"expansion inside {view}()", lines=lines)
        same(spec.expand(PROBE), want, f"expansion after {view}()", lines=lines)
        ctx.step()
    same(str(spec), text, "content")
    ctx.state(want)


# --- tainted is a reader like any other ---------------------------------------------------------

TAINT_OPS = ["add", "remove", "edit", "x", "x-clear", "force", "no-force", "expand", "copy", "other"]


def taint_cases(tier):
    for force in (False, True):
        for k in range(1, 4 if tier == "quick" else 5):
            for w in itertools.product(TAINT_OPS, repeat=k):
                if "add" in w or "x" in w:
                    yield {"force": force, "ops": list(w)}


def taint_run(case, ctx):
    """every history of up to 3 (4 in thorough) of 10 operations that make the content need a missing file or not: the first thing read afterwards, tainted, tells whether the parse of the current content faked it"""
    head = ["Name: test", "Version: 1", "Release: 1", "Summary: s", "License: l", "%{?x:%{load:%{_sourcedir}/missing.macros}}"]
    need = "%{load:%{_sourcedir}/absent.macros}"
    text = "\n".join(head + ["%description", "d", ""])
    d = ctx.fresh_dir()
    path = os.path.join(d, "test.spec")
    write(path, text)
    spec = Specfile(path, force_parse=case["force"])
    other = Specfile(path, force_parse=True)
    force, added, x = case["force"], False, False
    for n, o in enumerate(case["ops"]):
        ctx.step()
        if o == "add":
            with spec.lines() as lines:
                if need not in lines:
                    lines.insert(6, need)
            added = True
        elif o == "remove":
            with spec.lines() as lines:
                if need in lines:
                    lines.remove(need)
            added = False
        elif o == "edit":
            with spec.lines() as lines:
                lines[3] = f"Summary: {n}"
        elif o == "x":
            spec.macros.append(("x", "1"))
            x = True
        elif o == "x-clear":
            spec.macros.clear()
            x = False
        elif o in ("force", "no-force"):
            force = o == "force"
            spec.force_parse = force
        elif o == "expand":
            try:
                same(spec.expand("%{name}"), "test", "expansion", ops=case["ops"])
            except RPMException:
                require((added or x) and not force, "content with everything present was rejected", ops=case["ops"])
        elif o == "copy":
            spec = copy.deepcopy(spec)
        elif o == "other":
            with other.lines() as lines:
                if need not in lines:
                    lines.insert(6, need)
            same(other.tainted, True, "tainted of another instance")
    missing = added or x
    try:
        got = spec.tainted
    except RPMException:
        require(missing and not force, "content with everything present was rejected", ops=case["ops"])
        ctx.state("rejected")
        return
    require(force or not missing, "content with a missing file was accepted without force_parse", ops=case["ops"])
    same(got, missing, "tainted", ops=case["ops"])
    ctx.state(force, added, x)


SPACES = [
    FnSpace("single", single_cases, run, doc="every history of up to 2 (3 in thorough) of 20 operations on one instance, another instance idle: every reader reports the current content, macros and sourcedir"),
    FnSpace("two", two_cases, run, doc="every history of up to 2 (3 in thorough) of 25 operations on two instances: each reports its own current state, whichever was parsed last"),
    FnSpace("deep", deep_cases, run, doc="every history of 3 (4 in thorough) of 11 operations on two instances"),
    FnSpace("nested", nested_cases, nested_run),
    FnSpace("context", context_cases, context_run),
    FnSpace("tainted", taint_cases, taint_run),
]
