"""C01 -- looking at a spec file through any view changes nothing."""
import itertools
import os

import rpm

from mc.core import FnSpace, Violation, require, same
from mc.lib import HEADER, Oracle, load, read, write
from specfile import Specfile
from specfile.changelog import Changelog
from specfile.exceptions import SpecfileException
from specfile.macro_definitions import MacroDefinitions
from specfile.prep import Prep
from specfile.sections import Section, Sections
from specfile.sourcelist import Sourcelist
from specfile.tags import Tags

ASSUMPTIONS = [
    "lines are separated by LF; a line may hold any other character except CR",
    "a section header line can be split into words (quotes in it are paired)",
]


def setup(ctx):
    Oracle.reset([("nl", "\nfoo"), ("x", "1"), ("name", "n"), ("version", "1")])


VIEWS = {
    "macro definitions": lambda lines: MacroDefinitions.parse(lines).get_raw_data(),
    "macro definitions with conditions": lambda lines: MacroDefinitions.parse(
        lines, with_conditions=True
    ).get_raw_data(),
    "sections": lambda lines: Sections.parse(lines).get_raw_data(),
    "tags": lambda lines: Tags.parse(Section("package", data=lines)).get_raw_section_data(),
    "changelog": lambda lines: Changelog.parse(Section("changelog", data=lines)).get_raw_section_data(),
    "prep": lambda lines: Prep.parse(Section("prep", data=lines)).get_raw_section_data(),
    "sourcelist": lambda lines: Sourcelist.parse(Section("sourcelist", data=lines)).get_raw_section_data(),
}

LINES = {
    "macro definitions": [
        "%global a 1", "text", "", "%define b(o:) \\", "  body\\", "%global c %{expand:", "}", "%dnl %global d 1  ",
        "#global e 1", "# %%global f 1", "#%define g 1\t", " %global  h  1 ", "%global i \\", "%if 0", "%endif",
        "%global j %(echo (", ")", "%define k x\\", "%{?x:%global l 1}", "%global m", "%dnl%define n 2 \\",
        "%%global o 1", "%global p {", "\\", "   ", "%else", "%global a 1 %{?x:", "%define\tq\t\tz\\\\", "%global r \\ ",
    ],
    "sections": [
        "%description", "text", "", "%package -n x", "%prep ", "%PREP", "%files -f x.list", "%changelog %{nl}",
        "%build\t", "%preprocess", "%prep\\", "%global a \\", "%install", "  %build", "%%prep", "%changelog",
        "%description  -l cs %{?x:y z}", "%post -p <lua>", "%package 'a b'", "%files %{f} ", "%define s %{expand:",
        "}", "%files \\-n\t\"x\"  ", "%changelog  %{nl} ", "%sourcelist", "\x0c", "a\x0bb\u2028c\x85",
    ],
    "tags": [
        "Name: x", "text", "", "name : x ", "Requires(post): a", "Source0: s\t", "%{?x:Name: y}", "%{?x:Name: y} ",
        "%{!?x:Patch1: %{expand:a}}", "Summary: %{lua:", " a }", "}", "} ", "# c", "  #c ", "#", "%if 1", "%endif",
        "Foo: x", "Name:", "Name: ", "%global v 1", "%define w \\", "Summary(cs): y", "Version:x", "Source:%(echo  ",
        ")", " Name: z", "%{?x:", "%if 0", "%else", "#%if", "Name: a\x0cb\u2028",
    ],
    "changelog": [
        "* Mon Jan 01 2024 A <a> - 1", "- x", "", " ", "*", "* x", "  * y", "text", "%autochangelog", "\t",
        "* Tue Jan 02 2024 B <b> 1:2-3", "*- x",
    ],
    "prep": [
        "%setup -q", "text", "", "%setup", "%autosetup -n %{name}-%{version} -p1", "%patch0 -p1", "%patch -P 1",
        "%patch 1 -p1 # don't", "%{?x:%patch2 -p1}", "%{?x:foo}", " %setup -q ", "%setup -n 'a b'  -q ", "%patchset",
        "%setup\\", "%setup -q \\", "  -n foo", "%autopatch -p1 -m 1", "cd %(echo %setup -T) x", "# %patch3 -p1",
        "%patch4\t-p1\t", "%setup -n %{?y:a b}", '%setup -n ""', "%patch -p1 -b .x\\ y", "%{?x:%patchset}",
        "%{?x:%setup -q} ", "%{!?x: %autosetup} -p1", "%setup %(echo 'a  b') -n\"c\"d", "%patch1%{?x}",
        "%setup -q %{unterminated", "%{?x:%patch5 -p1 it's}",
    ],
    "sourcelist": [
        "a", "# c", "", " b ", "%if 0", "%endif", "http://x/%{name}#/y", "  # d", "#", "%global z 1", "\t", "%else",
        "%define y \\",
    ],
}
LINES["macro definitions with conditions"] = LINES["macro definitions"]


def word_cases(tier):
    for view, alphabet in LINES.items():
        n = 3 if len(alphabet) > 20 else 4
        if tier != "quick":
            n += 1
        for k in range(n + 1):
            for t in itertools.product(range(len(alphabet)), repeat=k):
                yield [view, list(t)]


def word_run(case, ctx):
    """every sequence of up to N lines from a view-specific alphabet: parsing it into the view and writing it back gives the same lines"""
    view, t = case
    lines = [LINES[view][i] for i in t]
    out = VIEWS[view](list(lines))
    ctx.step()
    same(out, lines, f"reading and writing back through {view} changed the lines")
    ctx.state(view, tuple(lines) if len(lines) < 3 else len(lines))


def run_cases(tier):
    for view, alphabet in LINES.items():
        for k in (5, 12) if tier == "quick" else (5, 8, 12, 40):
            for a in range(len(alphabet)):
                for b in range(len(alphabet)):
                    for shape in ("ab", "ba", "aba", "bab", "(ab)"):
                        yield [view, shape, k, a, b]


def run_run(case, ctx):
    """every pair of lines of a view-specific alphabet with long runs of one of them or of both in turn"""
    view, shape, k, a, b = case
    a, b = LINES[view][a], LINES[view][b]
    lines = {
        "ab": [a] * k + [b], "ba": [b] + [a] * k, "aba": [a] * k + [b] + [a] * k, "bab": [b] + [a] * k + [b], "(ab)": [a, b] * k,
    }[shape]
    out = VIEWS[view](list(lines))
    ctx.step()
    same(out, lines, f"reading and writing back through {view} changed the lines")
    ctx.state(view, shape, a, b)


TEMPLATES = [
    ("macro definitions", ["{}"], None),
    ("macro definitions", ["%global{}", "y"], None),
    ("macro definitions", ["%global a {}", "y}}", ")"], None),
    ("macro definitions", ["#{}%define a 1"], None),
    ("macro definitions", ["%dnl{}%define a 1 {}"], None),
    ("tags", ["{}"], None),
    ("tags", ["Name{}", "x"], None),
    ("tags", ["Name: {}", "}} ", ") "], None),
    ("tags", ["%{{?x:Name: {}}}", "y"], None),
    ("tags", ["%{{?x{}Name: y}}"], None),
    ("tags", ["#{}", "Name: x{}"], None),
    ("sections", ["%prep{}", "x"], None),
    ("sections", ["%package -n {}", "x"], None),
    ("prep", ["{}"], None),
    ("prep", ["%setup{}"], None),
    ("prep", ["%setup -n {}"], None),
    ("prep", ["{}%patch0 -p1{}"], None),
    ("prep", ["%{{?x:%patch0{}}}"], None),
    ("changelog", ["{}", "*{}", "- x{}"], None),
    ("sourcelist", ["{}", "a{}"], None),
]
CHARS = "a %{}?:\\#'\t("


def char_cases(tier):
    n = 4 if tier == "quick" else 5
    for k in range(n + 1):
        for s in itertools.product(CHARS, repeat=k):
            s = "".join(s)
            for i in range(len(TEMPLATES)):
                yield [i, s]


def char_run(case, ctx):
    """every string of up to N metacharacters placed into line templates of each view"""
    view, template, _ = TEMPLATES[case[0]]
    lines = [t.format(*([case[1]] * t.count("{}"))) for t in template]
    if any("%(" in l for l in lines):
        return  # would run a shell
    try:
        out = VIEWS[view](list(lines))
    except SpecfileException:
        if view == "sections":
            # the header line can't be split into words
            ctx.state("unsplittable header")
            return
        raise
    ctx.step()
    same(out, lines, f"reading and writing back through {view} changed the lines")
    ctx.state(view, case[0], len(case[1]), tuple(sorted(set(case[1]))))


# --- whole spec files ------------------------------------------------------------------

NL = ("nl", "\n* Tue Jan 02 2024 A <a@b.c> - 1-2\n- k")
BLOCKS = {
    "preamble": [
        [],
        ["%global v 1", "", "# a comment", "%define w(o:) \\", "  %{-o*} \\", "x"],
        ["%if 1", "Source0: a%{?x}.tar", "%else", "Source0: b", "%endif", "Patch: p.patch", "%{?x:URL: u}"],
        ['Requires: %{lua: print("a")', '  print("b")  ', "} ", "  # c", "", "", "Provides: a = 1\t", "#Requires: b"],
        ["%dnl %global d 1", "#global e 2", "# %%global f 3", "%{!?y:Epoch: 1}", "\x0c"],
        ["%bcond_with foo", "%if %{with foo}", "BuildRequires: x", "%endif", "Summary(cs): ěščř"],
    ],
    "desc": [
        ["%description", "d"],
        ["%Description ", "", "  text %{?v} ", "\u2028\x0b", ""],
        ["%description -l cs", "cs", "%description", "* not a changelog", "%if 0", "x", "%endif"],
    ],
    "package": [
        [],
        ["%package  -n  foo%{?v}", "Summary: s", "", "%description -n foo%{?v}", "x"],
        ["%package devel", "Summary: s", "%if 0", "Requires: r", "%endif", "", "%description devel", "y", "%files devel", "/x"],
    ],
    "prep": [
        [],
        ["%prep", "%setup -q  -n 'a b'", "%{?x:%patch0 -p1}", "%{?x:foo}", "# %patch1 doesn't", "%autopatch -p1 ", "true"],
        ["%prep\t", "%autosetup -p1 -n %{name}-%(echo a  b)", "", "%patch -P 0 -p1  -b .x", "echo \\", "  %patch0 -p1", ""],
    ],
    "lists": [
        [],
        ["%sourcelist", "# c", "a", "", "  b", "%patchlist", "p1", "%if 0", "p2", "%endif"],
    ],
    "changelog": [
        [],
        ["%changelog", "", "* Mon Jan 01 2024 A <a@b.c> - 1-1", "- x", "", "  ", "* Sun Dec 31 2023 A <a@b.c>", "- y"],
        ["%changelog %{nl}", "", "* Mon Jan 01 2024 A <a@b.c> - 1-1", "- z"],
        ["%changelog", "%autochangelog"],
    ],
}


def spec_docs(tier):
    names = list(BLOCKS)
    sizes = [len(BLOCKS[n]) for n in names]
    for t in itertools.product(*map(range, sizes)):
        if tier == "quick" and sum(1 for i in t if i) > 4:
            continue
        yield t


def spec_cases(tier):
    for t in spec_docs(tier):
        yield {"blocks": list(t), "end": "\n", "autosave": sum(t) % 2 == 0}
    for t in itertools.islice(spec_docs(tier), 0, None, 1):
        if sum(1 for i in t if i) > 1:
            continue
        for end in ("", "\n\n", " \n", "\n\n\n  ", "\x0c", "\xad\n"):
            for autosave in (False, True):
                yield {"blocks": list(t), "end": end, "autosave": autosave}


def document(t, end):
    lines = list(HEADER)
    if t[0] != 2:
        lines += ["Source0: a.tar", "Patch0: p.patch"]
    for name, i in zip(BLOCKS, t):
        lines += BLOCKS[name][i]
    return "\n".join(lines) + end


def visit(spec, text, path, ctx, autosave):
    def check(what):
        ctx.step()
        same(str(spec), text, f"{what} changed the content")
        if autosave:
            same(read(path), text.encode("utf-8", "surrogateescape"), f"{what} changed the file")

    with spec.lines():
        pass
    check("lines()")
    with spec.macro_definitions() as m:
        for d in m:
            d.get_position(m), str(d), repr(d)
    check("macro_definitions()")
    with spec.sections() as sections:
        ids = [s.id for s in sections]
        for s in sections:
            str(s), s.is_script, s.normalized_id, list(s.options)
        str(sections)
    check("sections()")
    spec.sections().content
    check("sections().content")
    for i in ids:
        if i.split()[0].lower() == "package":
            with spec.tags(i) as tags:
                for t in tags:
                    t.expanded_value, t.get_position(tags), t.comments.raw
            check(f"tags({i!r})")
    with spec.prep() as prep:
        if prep is not None:
            for m in prep.macros:
                dict(m.options), list(m.options.positional)
                getattr(m, "number", None)
    check("prep()")
    with spec.changelog() as changelog:
        if changelog is not None:
            for e in changelog:
                e.evr, e.extended_timestamp, e.day_of_month_padding, str(e)
    check("changelog()")
    with spec.sources() as sources:
        for s in sources:
            s.number, s.location, s.filename, s.remote, s.valid, s.comments.raw
    check("sources()")
    with spec.patches() as patches:
        for s in patches:
            s.number, s.location, s.filename, s.remote, s.valid
    check("patches()")
    for name in ("name", "version", "release", "raw_release", "epoch", "url", "summary", "license"):
        getattr(spec, name)
        if name not in ("release", "raw_release"):
            getattr(spec, f"expanded_{name}")
    spec.expanded_release, spec.expanded_raw_release
    spec.has_autorelease, spec.has_autochangelog, spec.contains_autochangelog
    spec.tainted, spec.rpm_spec, repr(spec)
    check("properties")
    with spec.sections() as s, spec.tags() as t, spec.sources() as so, spec.patches() as pa:
        with spec.prep(), spec.changelog():
            pass
    check("nested views")


def spec_run(case, ctx):
    """every combination of content blocks as a real spec file: visiting all views and properties leaves the content and the bytes on disk unchanged, with and without autosave"""
    text = document(case["blocks"], case["end"])
    d = ctx.fresh_dir()
    path = os.path.join(d, "t.spec")
    write(path, text)
    spec = Specfile(path, autosave=case["autosave"], macros=[NL])
    same(str(spec), text, "loading changed the content")
    visit(spec, text, path, ctx, case["autosave"])
    same(read(path), text.encode("utf-8", "surrogateescape"), "the file changed")
    spec.save()
    same(read(path), text.encode("utf-8", "surrogateescape"), "saving changed the file")
    spec.reload()
    same(str(spec), text, "reloading changed the content")
    ctx.state(tuple(case["blocks"]), case["end"], case["autosave"])


SPACES = [
    FnSpace("lines", word_cases, word_run, setup=setup),
    FnSpace("runs", run_cases, run_run, setup=setup),
    FnSpace("characters", char_cases, char_run, setup=setup),
    FnSpace("specs", spec_cases, spec_run),
]
