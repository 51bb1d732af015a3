"""C07 -- views compose: nested, re-entered, interrupted and per instance."""
import gc
import itertools

from mc.core import FnSpace, Violation, require, same
from mc.lib import load
from specfile import Specfile
from specfile.exceptions import SpecfileException

ASSUMPTIONS = [
    "views are left in the reverse order of entering them (with statements)",
    "line-level views (lines, macro definitions) are not edited while a section-level view is open",
]


class Model:
    """Marks made through each view, rendered into a fixed spec file."""

    def __init__(self):
        self.n = {v: 0 for v in VIEWS}

    def text(self, extra_lines=True):
        n = self.n
        lines = [
            *["# line"] * n["lines"],
            "%global m 1" + "1" * n["macros"],
            "Name: test",
            "Version: 1",
            "Release: 1",
            "Summary: s",
            "License: l" + "x" * n["tags"],
            "Source0: a" + "x" * n["sources"],
            "Patch0: b" + "x" * n["patches"],
            "",
            "%description",
            "d",
            *["more"] * n["sections"],
            "%package -n Foo",
            "Summary: t" + "x" * n["foo"],
            "%description -n Foo",
            "%prep",
            "%setup -q" + (" -n " + "x" * n["prep"] if n["prep"] else ""),
            "%changelog",
            "* Mon Jan 01 2024 A <a@b.c> - 1-1",
            "- e",
            *["- x"] * n["changelog"],
        ]
        return "\n".join(lines) + "\n"


def mod_macros(v, k):
    v.m.body += "1"


def mod_lines(v, k):
    v.insert(0, "# line")


def mod_sections(v, k):
    v.description.append("more")


def mod_tags(v, k):
    v.license.value += "x"


def mod_foo(v, k):
    v.summary.value += "x"


def mod_sources(v, k):
    v[0].location += "x"


def mod_patches(v, k):
    v[0].location += "x"


def mod_prep(v, k):
    v.setup.options.n = "x" * k


def mod_changelog(v, k):
    v[0].content.append("- x")


VIEWS = {
    "sections": (lambda s: s.sections(), mod_sections),
    "tags": (lambda s: s.tags(), mod_tags),
    "foo": (lambda s: s.tags("package -n Foo"), mod_foo),
    "sources": (lambda s: s.sources(), mod_sources),
    "patches": (lambda s: s.patches(), mod_patches),
    "prep": (lambda s: s.prep(), mod_prep),
    "changelog": (lambda s: s.changelog(), mod_changelog),
    "lines": (lambda s: s.lines(), mod_lines),
    "macros": (lambda s: s.macro_definitions(), mod_macros),
}
SECTION_LEVEL = [v for v in VIEWS if v not in ("lines", "macros")]
LINE_LEVEL = ("lines", "macros")


class Boom(Exception):
    pass


def modify(view, obj, m):
    m.n[view] += 1
    VIEWS[view][1](obj, m.n[view])


def nests(depth):
    for d in range(1, depth + 1):
        for first in VIEWS:
            rest = SECTION_LEVEL if first in SECTION_LEVEL else (SECTION_LEVEL if first == "lines" else [])
            if first == "macros" and d > 1:
                continue
            for more in itertools.product(rest, repeat=d - 1):
                yield (first,) + more


def cases(tier):
    depth = 3 if tier == "quick" else 4
    for nest in nests(depth):
        d = len(nest)
        outer = (False, True) if d > 1 and nest[0] not in LINE_LEVEL else (False,)
        for o in outer:
            for r in [None] + [[a, c] for a in range(1, d + 1) for c in range(0, a)]:
                if d > 2 and r and o:
                    continue
                yield {"nest": list(nest), "outer": o, "raise": r, "autosave": d % 2 == 0}


def run_nest(spec, m, nest, outer, fail, ctx):
    """fail = [level at which to raise, number of levels still open when it is caught]"""
    opened = []

    def level(i):
        view = nest[i]
        with VIEWS[view][0](spec) as obj:
            for v, o in opened:
                if v == view:
                    require(o is obj, f"entering {view} again gave another object")
            opened.append((view, obj))
            try:
                modify(view, obj, m)
                ctx.step()
                if fail and fail[0] == i + 1:
                    raise Boom()
                if i + 1 < len(nest):
                    if outer:
                        inner_hook = [(v, o) for v, o in opened]
                    else:
                        inner_hook = []
                    hooks.append(inner_hook)
                    try:
                        level(i + 1)
                    except Boom:
                        if fail[1] != i + 1:
                            raise
                    hooks.pop() if hooks else None
                    modify(view, obj, m)
                    ctx.step()
                else:
                    # while everything is open, change what the outer views hold
                    for v, o in hooks[-1] if hooks else []:
                        modify(v, o, m)
                        ctx.step()
            finally:
                opened.pop()

    hooks = []
    try:
        level(0)
        raised = False
    except Boom:
        raised = True
    same(raised, bool(fail) and fail[1] == 0, "an exception raised inside a view did not propagate as expected")


def run(case, ctx):
    """every nest of up to N views (re-entered ones included), modified at every level before, while and after inner views are open, with an exception at every level caught at every outer level: no modification is lost, nothing else changes, and views work again afterwards"""
    m = Model()
    spec = load(ctx, m.text(), autosave=case["autosave"])
    run_nest(spec, m, case["nest"], case["outer"], case["raise"], ctx)
    same(str(spec), m.text(), "the content is not the original plus the modifications")
    if case["autosave"]:
        same(spec.path.read_text(), m.text(), "autosave: the file is not the original plus the modifications")
    # another round: nothing is left over from the first one
    run_nest(spec, m, case["nest"][:1], False, None, ctx)
    same(str(spec), m.text(), "a second use of the view went wrong")
    for v in case["nest"]:
        with VIEWS[v][0](spec):
            pass
    same(str(spec), m.text(), "reading changed the content")
    ctx.state(tuple(case["nest"]), tuple(sorted(m.n.items())))


# --- more than one instance -----------------------------------------------------------------


def instance_cases(tier):
    for pair in itertools.product(VIEWS, repeat=2):
        for order in ("ABAB", "ABBA", "AABB", "BAAB"):
            if any(v in LINE_LEVEL for v in pair):
                if pair[1] in LINE_LEVEL or pair[0] == "macros":
                    continue
            yield {"views": list(pair), "order": order}


def instance_run(case, ctx):
    """views of two instances with the same content, nested in every order: they never mix"""
    models = {"A": Model(), "B": Model()}
    specs = {k: load(ctx, m.text()) for k, m in models.items()}
    left = {k: list(case["views"]) for k in models}

    def go(order, seen):
        if not order:
            return
        who = order[0]
        view = left[who].pop(0)
        with VIEWS[view][0](specs[who]) as obj:
            for o, (v, w) in zip(seen, seen_views):
                if w != who:
                    require(o is not obj, "two instances share a view")
            seen_views.append((view, who))
            modify(view, obj, models[who])
            ctx.step()
            go(order[1:], seen + [obj])

    seen_views = []
    go(case["order"], [])
    for k in models:
        same(str(specs[k]), models[k].text(), f"instance {k} is not its original plus its modifications")
    ctx.state(str(case))


# --- content, abandoned and failing views -----------------------------------------------------


EXCEPTIONS = {e.__name__: e for e in (StopIteration, RuntimeError, GeneratorExit, KeyboardInterrupt, SystemExit, AttributeError, ValueError, StopAsyncIteration)}


def misc_cases(tier):
    for a in VIEWS:
        yield {"kind": "content", "a": a}
        yield {"kind": "content kept", "a": a}
        yield {"kind": "abandoned", "a": a}
        for b in VIEWS:
            yield {"kind": "broken", "a": a, "b": b}
        yield {"kind": "unused", "a": a}
        for e in EXCEPTIONS:
            yield {"kind": "exception", "a": a, "exception": e}
            if a in SECTION_LEVEL:
                yield {"kind": "exception inside", "a": a, "exception": e}
        for b in VIEWS:
            if a in LINE_LEVEL and b in LINE_LEVEL and a != b:
                continue
            yield {"kind": "content inside", "a": a, "b": b}
            if a in SECTION_LEVEL and b in SECTION_LEVEL:
                yield {"kind": "failing", "a": a, "b": b}
                yield {"kind": "siblings", "a": a, "b": b}
                yield {"kind": "many", "a": a, "b": b}
    for b in ("kw", "positional"):
        yield {"kind": "same arguments", "how": b}
    for kind in ("sections equal", "properties", "missing"):
        yield {"kind": kind}


def misc_run(case, ctx):
    """read-only content, views that are created and dropped, failing ones, sequences of siblings, arguments passed in different ways"""
    m = Model()
    spec = load(ctx, m.text())
    kind = case["kind"]
    a, b = case.get("a"), case.get("b")
    ctx.step()
    if kind == "content":
        obj = VIEWS[a][0](spec).content
        if a != "lines":
            VIEWS[a][1](obj, 1)
        same(str(spec), m.text(), "modifying .content changed the spec file")
        with VIEWS[a][0](spec) as obj2:
            if a != "lines":
                require(obj2 is not obj, "a view left over by .content was used again")
            modify(a, obj2, m)
        same(str(spec), m.text(), "a modification after .content went wrong")
    elif kind == "content kept":
        c = VIEWS[a][0](spec)
        obj = c.content
        with VIEWS[a][0](spec) as obj2:
            if a != "lines":
                require(obj2 is not obj, "a view left over by .content was used again")
            modify(a, obj2, m)
        same(str(spec), m.text(), "a modification after .content went wrong")
        del c
        gc.collect()
        same(str(spec), m.text(), "a modification was lost when a consumed view was dropped")
    elif kind == "broken":
        # RPM rejects the content for a while, so that views may fail
        with spec.lines() as lines:
            lines.insert(0, "%if")
        for v in (a, b):
            try:
                with VIEWS[v][0](spec):
                    pass
            except SpecfileException:
                pass
        with spec.lines() as lines:
            del lines[0]
        same(str(spec), m.text(), "a failing view changed the content")
        for v in (b, a):
            with VIEWS[v][0](spec) as obj:
                modify(v, obj, m)
        same(str(spec), m.text(), "a modification after a failing view was lost")
    elif kind == "missing":
        for _ in range(2):
            for bad in ("package nope", "nope"):
                try:
                    with spec.tags(bad):
                        pass
                except AttributeError:
                    pass
                else:
                    raise Violation("tags() of a section that doesn't exist did not fail")
        with spec.lines() as lines:
            lines += ["%package nope", "Summary: n"]
        before = str(spec)
        with spec.tags("package nope") as tags:
            same(tags.summary.value, "n", "tags of a section added later")
            tags.summary.value = "q"
        same(str(spec), before.replace("Summary: n", "Summary: q"), "a modification of a section added later")
    elif kind == "content inside":
        with VIEWS[a][0](spec) as obj:
            modify(a, obj, m)
            other = VIEWS[b][0](spec).content
            if a == b:
                require(other is obj, ".content inside of a view is another object")
            if a not in LINE_LEVEL:
                modify(a, obj, m)
        same(str(spec), m.text(), ".content inside of a view lost a modification")
    elif kind == "exception":
        e = EXCEPTIONS[case["exception"]]("x")
        try:
            with VIEWS[a][0](spec) as obj:
                modify(a, obj, m)
                raise e
        except BaseException as got:
            require(got is e, "another exception came out of the view", raised=repr(e), caught=repr(got))
        else:
            raise Violation("the exception was swallowed", raised=repr(e))
        same(str(spec), m.text(), "a modification was lost")
        with VIEWS[a][0](spec) as obj:
            modify(a, obj, m)
        same(str(spec), m.text(), "a modification after the exception was lost")
    elif kind == "exception inside":
        e = EXCEPTIONS[case["exception"]]("x")
        with VIEWS[a][0](spec) as obj:
            try:
                with spec.sections() as sections, VIEWS[a][0](spec) as again:
                    require(again is obj, "entering the view again gave another object")
                    modify("sections", sections, m)
                    modify(a, again, m)
                    raise e
            except BaseException as got:
                require(got is e, "another exception came out of the view", raised=repr(e), caught=repr(got))
            modify(a, obj, m)
        same(str(spec), m.text(), "a modification was lost")
    elif kind == "abandoned":
        c = VIEWS[a][0](spec)
        with VIEWS[a][0](spec) as obj:
            modify(a, obj, m)
        del c
        gc.collect()
        same(str(spec), m.text(), "a modification was lost when an unused view was dropped")
    elif kind == "unused":
        c = VIEWS[a][0](spec)
        del c
        gc.collect()
        with VIEWS[a][0](spec) as obj:
            modify(a, obj, m)
        same(str(spec), m.text(), "a modification was lost after an unused view was dropped")
    elif kind == "failing":
        with VIEWS[a][0](spec) as obj:
            modify(a, obj, m)
            for bad in (lambda: spec.tags("package nope"), lambda: spec.tags("nope")):
                try:
                    with bad():
                        pass
                except AttributeError:
                    pass
                else:
                    raise Violation("tags() of a section that doesn't exist did not fail")
            with VIEWS[b][0](spec) as other:
                modify(b, other, m)
            modify(a, obj, m)
        same(str(spec), m.text(), "a failing view lost a modification")
    elif kind == "siblings":
        with spec.sections() as sections:
            modify("sections", sections, m)
            for v in (a, b, a):
                with VIEWS[v][0](spec) as obj:
                    modify(v, obj, m)
            modify("sections", sections, m)
        same(str(spec), m.text(), "views opened one after another inside sections() lost a modification")
    elif kind == "many":
        for _ in range(4):
            with VIEWS[a][0](spec) as x, VIEWS[b][0](spec) as y:
                modify(a, x, m)
                modify(b, y, m)
            same(str(spec), m.text(), "repeated use lost a modification")
    elif kind == "same arguments":
        with spec.tags() as t:
            with (spec.tags(section="package") if case["how"] == "kw" else spec.tags("package")) as u:
                require(u is t, "equal arguments passed differently give another view")
                modify("tags", u, m)
        same(str(spec), m.text(), "a modification was lost")
    elif kind == "sections equal":
        spec = load(ctx, m.text().replace("%changelog", "%if 0\n%changelog\n* Mon Jan 01 2024 A <a@b.c> - 1-1\n- e\n%endif\n%changelog"))
        with spec.sections() as s:
            one, two = [x for x in s if x.id == "changelog"]
            two.data = list(one.data)
            with spec.changelog(one) as c1, spec.changelog(two) as c2:
                require(c1 is not c2, "views of two equal sections are the same object")
                c2[0].content.append("- two")
            require("- two" in two.data and "- two" not in one.data, "a modification ended up in another section")
    elif kind == "properties":
        with spec.sections() as sections:
            spec.version = "2"
            spec.release = "3"
            modify("sections", sections, m)
            with spec.tags() as tags:
                same(tags.version.value, "2", "a property set inside of a view is not visible in it")
                spec.version = "4"
                same(tags.version.value, "4", "a property set inside of tags() is not visible in it")
                spec.add_patch("c")
            require(any(l.startswith("Patch") and l.endswith(": c") for l in sections.package), "add_patch() inside of a view is lost")
            spec.add_changelog_entry("- new", author="A", email="a@b.c")
        same(spec.version, "4", "a property set inside of a view is lost")
        same(spec.release, "3", "a property set inside of a view is lost")
        with spec.changelog() as c:
            same(c[-1].content, ["- new"], "add_changelog_entry() inside of a view is lost")
        same(str(spec).count("more"), 1, "a modification of sections is lost")
    ctx.state(str(case))


# --- different arguments for the same thing ----------------------------------------------------


def specific_cases(tier):
    yield "tags(section) in tags()"
    yield "sources(allow_duplicates) in sources()"


def specific_run(case, ctx):
    """the same content opened twice with different arguments"""
    m = Model()
    spec = load(ctx, m.text() + "%sourcelist\ns\n")
    if case.startswith("tags"):
        with spec.sections() as sections, spec.tags(), spec.tags(sections.package) as tags:
            tags.version.value = "2"
        ctx.step()
        same(spec.version, "2", "the modification made in the inner view is lost")
    else:
        with spec.sources(), spec.sources(allow_duplicates=True) as sources:
            sources[1].location = "t"
        ctx.step()
        same(spec.sources().content[1].location, "t", "the modification made in the inner view is lost")


SPACES = [
    FnSpace("nests", cases, run),
    FnSpace("instances", instance_cases, instance_run),
    FnSpace("misc", misc_cases, misc_run),
    FnSpace("specific", specific_cases, specific_run),
]
