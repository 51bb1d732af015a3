"""C19 -- copies are equal and independent, equality and representation tell the truth."""
import ast
import copy
import itertools
import os
import re

from mc.core import FnSpace, Violation, require, same
from mc.lib import load, read, words, write
from specfile import Specfile
from specfile.changelog import Changelog, ChangelogEntry
from specfile.exceptions import SpecfileException
from specfile.formatter import format_expression
from specfile.macro_definitions import CommentOutStyle, MacroDefinition, MacroDefinitions
from specfile.macros import Macro, MacroLevel
from specfile.options import Options, Positionals, Token, TokenType
from specfile.prep import AutopatchMacro, AutosetupMacro, PatchMacro, Prep, PrepMacros, SetupMacro
from specfile.sections import Section, Sections
from specfile.sourcelist import Sourcelist, SourcelistEntry
from specfile.sources import ListPatch, ListSource, Patches, Sources, TagPatch, TagSource
from specfile.tags import Comment, Comments, Tag, Tags
from specfile.utils import EVR, NEVR, NEVRA
from specfile.value_parser import (
    BuiltinMacro,
    ConditionalMacroExpansion,
    EnclosedMacroSubstitution,
    ExpressionExpansion,
    MacroSubstitution,
    ShellExpansion,
    StringLiteral,
    ValueParser,
)

ASSUMPTIONS = ["the representation of objects that belong to a Specfile contains the representation of the Specfile"]

NAMESPACE = {
    c.__name__: c
    for c in (
        Changelog, ChangelogEntry, CommentOutStyle, MacroDefinition, MacroDefinitions, Macro, MacroLevel, Options, Positionals,
        Token, TokenType, AutopatchMacro, AutosetupMacro, PatchMacro, Prep, PrepMacros, SetupMacro, Section, Sections,
        Sourcelist, SourcelistEntry, ListPatch, ListSource, Patches, Sources, TagPatch, TagSource, Comment, Comments, Tag, Tags,
        EVR, NEVR, NEVRA, BuiltinMacro, ConditionalMacroExpansion, EnclosedMacroSubstitution, ExpressionExpansion,
        MacroSubstitution, ShellExpansion, StringLiteral,
    )
}


def evaluate(text):
    """evaluates a representation; enum members are represented as <Class.MEMBER: value>"""
    return eval(re.sub(r"<(\w+\.\w+): -?\d+>", r"\1", text), dict(NAMESPACE))


# --- objects: how to build them, how to write them out, how to change them -------------------------


def text_section(lines, name="package"):
    return Section(name, data=list(lines))


def setter(path, value):
    """change of one attribute, reached over attributes and indexes"""

    def f(x):
        *head, last = path
        for p in head:
            x = x[p] if isinstance(p, int) else getattr(x, p)
        setattr(x, last, value)

    f.__name__ = ".".join(map(str, path)) + "=" + repr(value)
    return f


def call(path, *args):
    def f(x):
        *head, last = path
        for p in head:
            x = x[p] if isinstance(p, int) else getattr(x, p)
        getattr(x, last)(*args)

    f.__name__ = ".".join(map(str, path)) + repr(args)
    return f


def deleter(i):
    def f(x):
        del x[i]

    f.__name__ = f"del [{i}]"
    return f


def delattrer(path, name):
    def f(x):
        for p in path:
            x = x[p] if isinstance(p, int) else getattr(x, p)
        delattr(x, name)

    f.__name__ = f"del .{name}"
    return f


TAG_UNITS = [["Name: a"], ["# c", "#d", "Version: 1"], ["", "%global x 1", "Requires(post):  b"], ["%{!?y:Epoch: 2}"], ["%if 0", "URL: u", "%endif"]]
MD_UNITS = [["%global a 1"], ["# c", "", "%define b() %{expand:", "x}"], ["  %dnl %global c 3  "], ["#%global d 4"], ["%if 0", "%global e \\", " 5", "%endif"], ["%{!?f: %global f 6}"]]
CL_UNITS = [["* Mon Jan 01 2024 A <a@b> - 1-1", "- c", ""], ["* Tue Jan 02 2024 B", "", "- d", "", ""], ["* Wed Jan 03 10:00:00 UTC 2024 C <c@d> 1:2-3", "  e"]]
PREP_UNITS = [["%setup -q"], ["# x", "", "%patch 1 -p1"], ["%patch2 -p 2 -b .x", "make"], ["%{?x:%autosetup -p1 -n 'a b'}"], ["%autopatch -m 1"]]
SL_UNITS = [["a.tar"], ["# c", "b.tar"], ["%if 0", "http://x/c.tar", "%endif"], ["", "d-%{x}.tar"]]
SECTION_UNITS = [["%description -n 'a b'", "d"], ["%build"], ["%check", "%install_x", ""], ["%files -f l doc", "/x"], ["%package x"]]
OPT_UNITS = ["-q", "-n x", "pos", "-b 'a b'", '-T"z"', "-p1"]


def lines_of(units, case):
    return [l for i in case for l in units[i]]


KINDS = {}


def kind(name, units, build, text, changes, with_eval=True):
    KINDS[name] = (units, build, text, changes, with_eval)


kind(
    "tags", TAG_UNITS,
    lambda lines: Tags.parse(text_section(lines)),
    lambda x: x.get_raw_section_data(),
    [
        setter([0, "value"], "changed"), setter([0, "name"], "Group"), setter([-1, "comments"], Comments([Comment("zz")])), call([0, "comments", "append"], "new"),
        call([-1, "comments", "insert"], 0, "new"), call(["insert"], 0, Tag("Group", "g", ": ", Comments())), deleter(0), deleter(-1), deleter(slice(None)),
        call(["pop"]), call(["clear"]), call(["reverse"]),
        setter([-1, "_separator"], ":\t"), setter([0, "_prefix"], " "), setter([0, "_suffix"], " "),
    ],
)
kind(
    "macro_definitions", MD_UNITS,
    lambda lines: MacroDefinitions.parse(list(lines)),
    lambda x: x.get_raw_data(),
    [
        setter([0, "body"], "changed"), setter([0, "name"], "changed"), setter([-1, "is_global"], None), setter([-1, "commented_out"], None),
        call(["insert"], 0, MacroDefinition("n", "1", True, False, CommentOutStyle.DNL, ("", " ", " ", ""))), deleter(0), deleter(-1), call(["clear"]), call(["reverse"]),
        setter([0, "_prefix"], " "),
    ],
)
kind(
    "changelog", CL_UNITS,
    lambda lines: Changelog.parse(text_section(lines, "changelog")),
    lambda x: x.get_raw_section_data(),
    [
        setter([0, "header"], "* changed"), setter([-1, "content"], ["- changed"]), call([0, "content", "append"], "- new"), call([-1, "content", "clear"]), deleter(0), deleter(-1), call(["clear"]), call(["reverse"]),
        call(["insert"], 0, ChangelogEntry("* x", ["- y"])),
    ],
)
kind(
    "prep", PREP_UNITS,
    lambda lines: Prep.parse(text_section(lines, "prep")),
    lambda x: x.get_raw_section_data(),
    [
        setter(["macros", 0, "name"], "%changed"), setter(["macros", 0, "options", "b"], "changed"), setter(["macros", -1, "options", "p"], 7), call(["macros", 0, "options", "positional", "append"], "9"),
        call(["add_patch_macro"], 7), call(["macros", "clear"]), call(["macros", "reverse"]), call(["macros", 0, "options", "clear"]),
        call(["macros", "insert"], 0, SetupMacro("%setup", Options(Options.tokenize("-q"), SetupMacro.OPTSTRING, SetupMacro.DEFAULTS), " ")),
    ],
)
kind(
    "sourcelist", SL_UNITS,
    lambda lines: Sourcelist.parse(text_section(lines, "sourcelist")),
    lambda x: x.get_raw_section_data(),
    [setter([0, "location"], "changed"), call([0, "comments", "append"], "new"), setter([-1, "comments"], Comments([Comment("zz")])), deleter(0), deleter(-1), call(["clear"]), call(["reverse"]), call(["insert"], 0, SourcelistEntry("n", Comments()))],
)
kind(
    "sections", SECTION_UNITS,
    lambda lines: Sections.parse(["Name: a", ""] + list(lines)),
    lambda x: x.get_raw_data(),
    [
        call([-1, "append"], "changed"), call([0, "insert"], 0, "changed"), setter([-1, "name"], "clean"), setter([-1, "data"], ["z"]), call([-1, "options", "positional", "append"], "zz"), deleter(1), deleter(-1), call(["clear"]), call(["reverse"]),
        call(["insert"], 1, Section("files", data=["q"])),
    ],
)
kind(
    "options", [[u] for u in OPT_UNITS],
    lambda lines: Options(Options.tokenize(" ".join(lines)), "qn:b:T:p:x", {"x": False}),
    lambda x: str(x),
    [setter(["q"], True), setter(["n"], "changed"), setter(["p"], 8), setter(["x"], True), call(["positional", "append"], "new"), call(["positional", "insert"], 0, 5), call(["positional", "clear"]), call(["clear"]), delattrer([], "b"), setter(["T"], "it's")],
)
kind(
    "sources", TAG_UNITS[:2] + [["Source0: a"], ["# c", "Source: b-%{x}"], ["%if 0", "Source5: http://c/c", "%endif"]],
    lambda lines: Sources(Tags.parse(text_section(lines)), [Sourcelist.parse(text_section(["# e", "e.tar", "f.tar"], "sourcelist"))]),
    lambda x: (repr(x), [(s.number, s.location, s.comments.raw) for s in x]),
    [call(["append"], "new"), call(["insert"], 0, "new"), deleter(0), deleter(-1), call(["clear"]), setter([0, "location"], "changed"), call([-1, "comments", "append"], "new")],
)


def object_cases(tier):
    for name, (units, *_) in KINDS.items():
        depth = (2 if len(units) > 4 else 3) if tier == "quick" else 3
        for w in words(range(len(units)), 0, depth):
            yield [name, list(w)]


def attempt(f, x):
    """applies a change; True if it could be applied"""
    try:
        f(x)
    except (IndexError, AttributeError, ValueError, SpecfileException):
        return False
    return True


def toggled(f):
    return f


def object_run(case, ctx):
    """every object of every class built from up to 2-3 units: a deep copy is equal and writes the same text; changing either of the two by any operation leaves the other as it was, and the changed one is unequal if it is written differently; shallow copies share items but not the list; the representation evaluates to an equal object writing the same text"""
    name, w = case
    units, build, text, changes, with_eval = KINDS[name]
    lines = lines_of(units, w)
    ref = build(lines)
    want, want_repr = text(ref), repr(ref)
    require(ref == build(lines) and not (ref != build(lines)), "two objects parsed from the same lines are not equal", lines=lines)
    c = copy.deepcopy(ref)
    same(type(c), type(ref), "type of the copy")
    same(text(c), want, "text of the copy")
    same(repr(c), want_repr, "representation of the copy")
    require(c == ref and ref == c, "a deep copy is not equal", lines=lines)
    for other in (None, 0, "x", object()):
        require(not (ref == other) and ref != other, "equal to an unrelated object", other=repr(other))
    if with_eval:
        e = evaluate(want_repr)
        same(type(e), type(ref), "type of the evaluated representation")
        same(text(e), want, "text of the evaluated representation")
        require(e == ref, "the evaluated representation is not equal", representation=want_repr)
        same(repr(e), want_repr, "representation of the evaluated representation")
    for f in changes:
        for changed_is_copy in (True, False):
            original = build(lines)
            duplicate = copy.deepcopy(original)
            a, b = (duplicate, original) if changed_is_copy else (original, duplicate)
            applied = attempt(f, a)
            same(text(b), want, "text of the other object after a change", change=f.__name__, changed="copy" if changed_is_copy else "original", lines=lines)
            same(repr(b), want_repr, "representation of the other object after a change", change=f.__name__)
            after = text(a)
            ctx.step()
            if applied and after != want:
                if items(a) != items(b):
                    require(a != b and not (a == b), "differently written objects are equal", change=f.__name__, lines=lines, text=after)
                ctx.state(name, after)
    # items are told apart, so that index() and remove() find the right one
    seq = ref.macros if isinstance(ref, Prep) else ref
    if not isinstance(ref, (Options, Sources)):
        keys = items(ref)
        for i, j in itertools.product(range(len(keys)), repeat=2):
            equal = keys[i] == keys[j]
            same((seq[i] == seq[j], seq[i] != seq[j]), (equal, not equal), "equality of two items", a=keys[i], b=keys[j])
        for i in range(len(keys)):
            same(seq.index(seq[i]), keys.index(keys[i]), "index of an item", lines=lines)
    # a shallow copy has its own list
    if isinstance(ref, (Tags, MacroDefinitions, Changelog, Sourcelist, Sections)):
        for maker in (copy.copy, lambda x: x.copy(), lambda x: x[:]):
            for f in (deleter(0), deleter(slice(None)), lambda x: x.clear(), lambda x: x.data.reverse()):
                original = build(lines)
                c = maker(original)
                same(type(c), type(original), "type of a shallow copy")
                same(text(c), want, "text of a shallow copy")
                require(c == original, "a shallow copy is not equal")
                if name in ("macro_definitions", "tags", "changelog", "sections", "sourcelist"):
                    n = len(original)
                    if attempt(f, c):
                        same(len(original), n, "number of items of the original after removing from a shallow copy")
                    ctx.step()


def items(x):
    """text of the items of a list; lines that belong to no item are not part of its value"""
    if isinstance(x, Prep):
        x = x.macros
    if isinstance(x, Sources):
        return object()
    if isinstance(x, Options):
        return dict(x.items()), list(x.positional)
    if isinstance(x, Tags):
        return [(t.name, t.value, Tags([t]).get_raw_section_data()[-1 - t.value.count("\n"):], [str(c) for c in t.comments]) for t in x]
    if isinstance(x, Sourcelist):
        return [(t.location, [str(c) for c in t.comments]) for t in x]
    return [repr(i) for i in x]


# --- slices ------------------------------------------------------------------------------------

SLICED = {
    "tags": lambda n: Tags.parse(text_section([l for u in TAG_UNITS[:n] for l in u])),
    "macro_definitions": lambda n: MacroDefinitions.parse([l for u in MD_UNITS[:n] for l in u]),
    "changelog": lambda n: Changelog.parse(text_section(["# before", ""] + [l for u in CL_UNITS[:n] for l in u], "changelog")),
    "prep macros": lambda n: Prep.parse(text_section([l for u in PREP_UNITS[:n] for l in u], "prep")).macros,
    "sourcelist": lambda n: Sourcelist.parse(text_section([l for u in SL_UNITS[:n] for l in u], "sourcelist")),
    "sections": lambda n: Sections.parse(["Name: a"] + [l for u in SECTION_UNITS[:n] for l in u]),
    "section": lambda n: Section("description", Options(Options.tokenize("-l cs x"), "l:n:"), " ", "\n", ["a", "", "%b", "c "][:n]),
    "comments": lambda n: Comments([Comment(t, prefix) for t, prefix in (("a", "# "), ("", "#"), ("b ", "#\t"), ("a", "# "))][:n], ["", "%if 1"]),
    "positionals": lambda n: Options(Options.tokenize(" ".join(["a", "-q 1", "'b c'", "2"][:n])), "q:").positional,
    "sources": lambda n: Sources(Tags.parse(text_section(["Name: a", "Source0: a", "Source5: b", "Source: c"][: n + 1])), []),
}


def slice_cases(tier):
    bounds = [None, 0, 1, 2, 4, -1, -2, -5]
    for name in SLICED:
        for n in range(5):
            for start, stop in itertools.product(bounds, repeat=2):
                for step in (None, 2, -1):
                    yield {"kind": name, "items": n, "slice": [start, stop, step]}


def slice_run(case, ctx):
    """every slice of every list-like object of up to 4 items: the items a list would give, in an object of the same kind (a plain list for sources and arguments), which can be changed without changing the original"""
    build = SLICED[case["kind"]]
    x = build(case["items"])
    sl = slice(*case["slice"])
    before = list(x)
    text = repr(x)
    got = x[sl]
    ctx.step()
    same([repr(i) for i in got], [repr(i) for i in before[sl]], "items of a slice")
    same(repr(x), text, "slicing changed the object")
    if case["kind"] in ("sources", "positionals"):
        require(isinstance(got, list), "a slice is not a list")
    else:
        same(type(got).__name__, type(x).__name__, "type of a slice")
        if len(got) == len(x) and sl.step != -1:
            require(got == x and x == got, "a slice with everything is not equal")
            same(repr(got), text, "a slice with everything has other contents")
        if isinstance(x, Section):
            same((got.id, got.name, str(got.options)), (x.id, x.name, str(x.options)), "identity of a slice of a section")
        elif before:
            require(all(a is b for a, b in zip(got, before[sl])), "a slice has other items")
    if got:
        # only the list is changed: the items are shared
        under = got if isinstance(got, list) else got.data
        under.append(under[0])
        del under[:]
    same(repr(x), text, "changing a slice changed the object")
    for c in (copy.copy(x), x.copy()) if hasattr(x, "copy") else (copy.copy(x),):
        if case["kind"] not in ("sources", "positionals"):
            require(c == x and type(c) is type(x) and repr(c) == text, "a shallow copy differs")
            c.append(c[0]) if c else None
            same(repr(x), text, "appending to a shallow copy changed the object")
    ctx.state(case["kind"], tuple(map(repr, before[sl])))


# --- all pairs of items that differ in one place --------------------------------------------------

VARIANTS = {
    "tags": [
        ["Name: a"], ["Name:  a"], ["name: a"], ["Name: b"], ["Name :a"], ["# c", "Name: a"], ["#c", "Name: a"], ["# c", "# c", "Name: a"], ["Name: a "], ["Name: a\t"],
        ["%{?x:Name: a}"], ["%{!?x:Name: a}"], ["Name: %{y", "}"], ["Version: a"],
    ],
    "macro_definitions": [
        ["%global a 1"], ["%define a 1"], ["%global b 1"], ["%global a 2"], ["%global a  1"], ["%global  a 1"], [" %global a 1"], ["%global a 1 "], ["%dnl %global a 1"], ["%dnl  %global a 1"], ["#%global a 1"],
        ["# %%global a 1"], ["## %%global a 1"], ["%global a() 1"], ["%global a %{", "1}"], ["%global a \\", "1"], ["", "%global a 1"], ["x", "%global a 1"], ["%dnl %define a 1"], ["#%define a 1"],
    ],
    "changelog": [
        [h] + c + f
        for h in ("* Mon Jan 01 2024 A <a@b> - 1-1", "* Mon Jan  1 2024 A <a@b> - 1-1", "* Mon Jan 01 2024 A <a@b> - 1-2")
        for c in ([], ["- c"], ["- c", "- d"], ["- c", "", "- d"])
        for f in ([], [""], ["", ""])
    ],
    "prep": [
        ["%setup"], ["%setup -q"], ["%setup  -q"], [" %setup -q"], ["%setup -n x"], ["%setup -n y"], ["%setup -q z"], ["%autosetup -q"], ["%{?x:%setup -q}"], ["cd a", "%setup -q"], ["cd b", "%setup -q"],
        ["%patch -P 1"], ["%patch1"], ["%patch 1"], ["%patch2"], ["%autopatch -p1"], ["%autopatch -p2"],
    ],
    "sourcelist": [["a"], ["b"], ["a "], ["# c", "a"], ["#c", "a"], ["# d", "a"], ["# c", "# d", "a"], ["%{x}"]],
    "sections": [["%build"], ["%build", "x"], ["%build", ""], ["%build", "x", "y"], ["%check"], ["%files"], ["%files x"], ["%files -n x"], ["%files", "x"]],
}
WRAP = {
    "tags": lambda t: (Tags([t]).get_raw_section_data()[-1 - t.value.count("\n"):], [str(c) for c in t.comments]),
    "macro_definitions": lambda m: MacroDefinitions([m]).get_raw_data(),
    "changelog": lambda e: Changelog([e]).get_raw_section_data(),
    "prep": lambda m: PrepMacros([m]).get_raw_data(),
    "sourcelist": lambda e: (e.location, [str(c) for c in e.comments], Sourcelist([e]).get_raw_section_data()[-1]),
    "sections": lambda s: Sections([Section("package"), s]).get_raw_data(),
}


def pair_cases(tier):
    for name, variants in VARIANTS.items():
        for i, j in itertools.product(range(len(variants)), repeat=2):
            yield [name, variants[i], variants[j]]


def pair_run(case, ctx):
    """every pair of items of the same class that differ in one place (a character, a comment, white space, a flag, a blank line after them): they are equal if and only if they are written alike, alone and as members of lists"""
    name, a, b = case
    build = KINDS[name][1]

    def seq(x):
        return x.macros if isinstance(x, Prep) else x

    x, y = build(a), build(b)
    i, j = seq(x)[-1], seq(y)[-1]
    equal = WRAP[name](i) == WRAP[name](j)
    same((i == j, i != j), (equal, not equal), "equality of two items", a=repr(i), b=repr(j))
    same((x == y, x != y), (equal, not equal), "equality of two lists of one item", a=repr(x), b=repr(y))
    same((i in seq(y).data, seq(y).data.count(i)), (equal, int(equal)), "membership", a=repr(i), b=repr(y))
    if hasattr(type(i), "__hash__") and type(i).__hash__ is not None and equal:
        same(hash(i), hash(j), "hash of equal items")
    ctx.state(name, a, b, equal)
    ctx.step()


# --- sources as items ------------------------------------------------------------------------------

SOURCE_UNITS = [["Source0: a"], ["Source: a"], ["Source1: a"], ["Source0: b"], ["# c", "Source0: a"], ["Source0:  a"], ["source0: a"], ["Source0: a "], ["#c", "Source0: a"], ["Source00: a"]]
LIST_UNITS = [["a"], ["b"], ["# c", "a"], ["#c", "a"], ["# d", "a"]]


def source_cases(tier):
    docs = [[t, l] for t in words(range(len(SOURCE_UNITS)), 0, 1) for l in words(range(len(LIST_UNITS)), 0, 1)]
    for x, y in itertools.product(docs, repeat=2):
        yield [[list(p) for p in x], [list(p) for p in y]]


def source_run(case, ctx):
    """every pair of lists of at most one source tag and one list entry: two sources are equal if and only if they have the same number and are written alike, membership is by location, and addition gives the sources of both"""
    made = []
    for t, l in case:
        tags = Tags.parse(text_section(lines_of(SOURCE_UNITS, t)))
        lists = [Sourcelist.parse(text_section(lines_of(LIST_UNITS, l), "sourcelist"))]
        made.append(Sources(tags, lists))
    x, y = made

    def keys(case):
        t, l = case
        return [("tag", t)] * bool(t) + [("list", l, bool(t), t in ([2],))] * bool(l)

    kx, ky = keys(case[0]), keys(case[1])
    same((len(x), len(y)), (len(kx), len(ky)), "number of sources")
    for (i, a), (j, b) in itertools.product(enumerate(kx), enumerate(ky)):
        ctx.step()
        equal = a == b
        same((x[i] == y[j], x[i] != y[j]), (equal, not equal), "equality of two sources", a=repr(x[i]), b=repr(y[j]))
    same((x == y, x != y), (case[0] == case[1], case[0] != case[1]), "equality of two lists of sources")
    places = [s.location for s in x]
    for place in ("a", "b", "c"):
        same(place in x, place in places, "membership of a location")
    same([s.location for s in x + y], [s.location for s in x] + [s.location for s in y], "sources of two lists added")
    same([s.location for s in x + list(y)], [s.location for s in x] + [s.location for s in y], "sources of a list added")
    if len(y):
        same([s.location for s in x + y[0]], [s.location for s in x] + [y[0].location], "a source added")
    same(([s.location for s in x], len(x)), (places, len(kx)), "sources after an addition")
    ctx.state(case)


# --- what an object was built from stays the caller's ----------------------------------------------


def constructions():
    def opts():
        return Options(Options.tokenize("-q x"), "q", {})

    tag = lambda: Tag("Name", "a", ": ", Comments([Comment("c")]))
    md = lambda: MacroDefinition("m", "1", True, False, CommentOutStyle.DNL, ("", " ", " ", ""), preceding_lines=["p"])
    entry = lambda: ChangelogEntry("* x", ["- y"], [""])
    macro = lambda: SetupMacro("%setup", opts(), " ", preceding_lines=["p"])
    sle = lambda: SourcelistEntry("a", Comments([Comment("c")]))
    return {
        "Comments": (lambda: [[Comment("a"), Comment("b")], ["p"]], lambda a: Comments(*a)),
        "Tag": (lambda: [Comments([Comment("c")], ["p"])], lambda a: Tag("Name", "a", ": ", a[0])),
        "Tags": (lambda: [[tag(), tag()], ["r"]], lambda a: Tags(*a)),
        "MacroDefinition": (lambda: [["p"]], lambda a: MacroDefinition("m", "1", True, False, CommentOutStyle.DNL, ("", " ", " ", ""), preceding_lines=a[0])),
        "MacroDefinitions": (lambda: [[md(), md()], ["r"]], lambda a: MacroDefinitions(*a)),
        "ChangelogEntry": (lambda: [["- y"], [""]], lambda a: ChangelogEntry("* x", *a)),
        "Changelog": (lambda: [[entry(), entry()], ["p"]], lambda a: Changelog(*a)),
        "PrepMacro": (lambda: [["p"]], lambda a: SetupMacro("%setup", opts(), " ", preceding_lines=a[0])),
        "PrepMacros": (lambda: [[macro(), macro()], ["r"]], lambda a: PrepMacros(*a)),
        "Prep": (lambda: [PrepMacros([macro()], ["r"])], lambda a: Prep(a[0])),
        "SourcelistEntry": (lambda: [Comments([Comment("c")], ["p"])], lambda a: SourcelistEntry("a", a[0])),
        "Sourcelist": (lambda: [[sle(), sle()], ["r"]], lambda a: Sourcelist(*a)),
        "Options": (lambda: [Options.tokenize("-q x"), {"z": 1}], lambda a: Options(a[0], "qz:", a[1])),
        "Section": (lambda: [["x", "y"]], lambda a: Section("build", data=a[0])),
        "Sections": (lambda: [[Section("package"), Section("build")]], lambda a: Sections(a[0])),
    }


PROBES = [
    deleter(0), deleter(-1), deleter(slice(None)), call(["clear"]), call(["reverse"]), call(["pop"]), call(["comments", "clear"]), call(["comments", "append"], "z"), call(["content", "clear"]),
    call(["content", "append"], "z"), call(["macros", "clear"]), call(["append"], "z"), call(["positional", "append"], "z"), setter(["q"], False), setter(["z"], 5), call(["insert"], 0, "z"), call(["data", "clear"]), call(["data", "reverse"]),
]


def construction_cases(tier):
    for name in constructions():
        yield name


def construction_run(case, ctx):
    """every class that is built from lists: changing those lists afterwards does not change the object, and changing the object does not change the lists"""
    args, make = constructions()[case]
    a = args()
    x = make(a)
    want = repr(x)
    for item in a:
        if isinstance(item, dict):
            item.clear()
        else:
            item.reverse()
            del item[0]
        ctx.step()
        same(repr(x), want, "object after a change of what it was built from", item=repr(item))
    for f in PROBES:
        a = args()
        shapes = [len(i) for i in a]
        x = make(a)
        attempt_any(f, x)
        ctx.step()
        same([len(i) for i in a], shapes, "what the object was built from after a change of the object", change=f.__name__)
    for f in PROBES:
        a = args()
        first, second = make(a), make(a)
        if case in ("Tags", "MacroDefinitions", "Changelog", "PrepMacros", "Prep", "Sourcelist", "Sections", "Comments"):
            seq = lambda o: o.macros if isinstance(o, Prep) else o
            n = len(seq(first))
            attempt_any(f, second)
            same(len(seq(first)), n, "number of items of another object built from the same list", change=f.__name__)
        else:
            attempt_any(f, second)
            same(repr(first), want, "another object built from the same list", change=f.__name__)
        ctx.step()
    ctx.state(case)


# --- equality of objects built from arguments -------------------------------------------------------

WS = [("", " ", " ", ""), (" ", " ", " ", ""), ("", "  ", " ", ""), ("", " ", "\t", ""), ("", " ", " ", " ")]
ARGUMENTS = {
    # class: domains of its arguments, how to build it, how it is written (a function of the arguments only)
    "MacroDefinition": (
        [["a", "a()"], ["1", "1\n2"], [True, False], [True, False], list(CommentOutStyle), WS],
        lambda n, b, g, o, c, w: MacroDefinition(n, b, g, o, c, w),
        lambda n, b, g, o, c, w: (n, b, g, o, w) + ((c.name,) if o else ()),
    ),
    "Comment": ([["a", "b", ""], ["# ", "#", " # "]], lambda t, p: Comment(t, p), lambda t, p: (p, t)),
    "Tag": (
        [["Name", "Version"], ["a", "b", "a\nb"], [": ", ":", ":\t"], [(), ("c",), ("d",), ("c", "d")], ["", "%{?x:"], ["", "}", "} "]],
        lambda n, v, sep, c, p, x: Tag(n, v, sep, Comments([Comment(t) for t in c]), True, p, x),
        lambda *a: a,
    ),
    "ChangelogEntry": (
        [["* x", "* y"], [(), ("- a",), ("- b",), ("- a", "- b")], [(), ("",), ("", "")]],
        lambda h, c, f: ChangelogEntry(h, list(c), list(f)), lambda h, c, f: (h, c, f),
    ),
    "SourcelistEntry": ([["a", "b", "a "], [(), ("c",), ("d",), ("c", "d")]], lambda l, c: SourcelistEntry(l, Comments([Comment(t) for t in c])), lambda *a: a),
    "Section": ([["build", "check"], [(), ("x",), ("y",), ("x", "y"), ("",)]], lambda n, d: Section(n, data=list(d)), lambda *a: a),
    "Macro": (
        [["a", "b"], [None, "()", "(x)"], ["", "1", "2"], [MacroLevel.SPEC, MacroLevel.GLOBAL, MacroLevel.RPMRC], [True, False]],
        lambda *a: Macro(*a), lambda *a: a,
    ),
    "Token": ([[TokenType.DEFAULT, TokenType.WHITESPACE, TokenType.QUOTED, TokenType.DOUBLE_QUOTED], ["a", " ", "b"]], lambda t, v: Token(t, v), lambda *a: a),
}


BUILT = {}


def argument_cases(tier):
    for name, (domains, _, _) in ARGUMENTS.items():
        for a in itertools.product(*(range(len(d)) for d in domains)):
            yield [name, list(a)]


def argument_run(case, ctx):
    """every pair of objects built from combinations of arguments: equal if the arguments are, unequal if they are written differently; never equal to objects of unrelated types"""
    name, a = case
    domains, make, written = ARGUMENTS[name]
    args = [d[i] for d, i in zip(domains, a)]
    x = make(*args)
    if name in ("MacroDefinition", "SourcelistEntry"):
        require(x.valid, "a new object is not valid", a=repr(x))
    if name not in BUILT:
        BUILT[name] = [(b, make(*b), written(*b)) for b in itertools.product(*domains)]
    want = written(*args)
    for b, y, w in BUILT[name]:
        if list(b) == args:
            same((x == y, x != y), (True, False), "equality of objects built from the same arguments", a=repr(x))
            if type(x).__hash__ is not None:
                same(hash(x), hash(y), "hash of equal objects", a=repr(x))
        elif w != want and (x == y or not x != y):
            same((x == y, x != y), (False, True), "equality of differently written objects", a=repr(x), b=repr(y))
    for other in (None, 1, "a", [], args, tuple(args), object()):
        if isinstance(x, (list, Section, Positionals)) and isinstance(other, list) or isinstance(other, str):
            continue
        same((x == other, x != other), (False, True), "equality with something unrelated", a=repr(x), b=repr(other))
    ctx.step()
    ctx.state(name, a)


def attempt_any(f, x):
    try:
        f(x)
    except (IndexError, AttributeError, ValueError, TypeError, SpecfileException):
        pass


# --- nodes and plain values ---------------------------------------------------------------------


NODE_ATOMS = ["a", "%%", "%x", "%{x}", "%{?x}", "%{!?x:b}", "%{?x:%{y}}", "%(echo)", "%[1+1]", "%{upper:z}", "%{-n*}", "%{a b}", "%?!x", "'", '"', "\\", "\n", "é"]


def value_cases(tier):
    for w in words(NODE_ATOMS, 0, 2 if tier == "quick" else 3):
        yield list(w)


def value_run(case, ctx):
    """every value of up to 2-3 constructs: nodes, macros, tokens and (N)EV(R)(A)s equal their deep copies and their evaluated representations, and those of different text are unequal"""
    s = "".join(case)
    try:
        nodes = ValueParser.parse(s)
    except SpecfileException:
        return
    again = ValueParser.parse(s)
    require(nodes == again, "nodes of the same text are unequal", text=s)
    require(copy.deepcopy(nodes) == nodes, "copied nodes are unequal", text=s)
    for n in nodes:
        e = evaluate(repr(n))
        require(e == n and str(e) == str(n) and type(e) is type(n), "the evaluated representation of a node differs", node=repr(n))
        for m in ALL_NODES:
            equal = type(m) is type(n) and str(m) == str(n)
            same((n == m, n != m), (equal, not equal), "equality of nodes", a=repr(n), b=repr(m))
            ctx.step()
    for x, y in (
        (Token(TokenType.DEFAULT, s), Token(TokenType.DEFAULT, s + "x")),
        (Token(TokenType.QUOTED, s), Token(TokenType.DOUBLE_QUOTED, s)),
        (Comment(s), Comment(s + "x")),
        (Comment(s, "# "), Comment(s, "#")),
        (Macro("n", None, s, MacroLevel.SPEC, True), Macro("n", None, s, MacroLevel.SPEC, False)),
        (Macro("n", s, "b", MacroLevel.SPEC, True), Macro("n", s + "x", "b", MacroLevel.SPEC, True)),
        (Macro("n", None, "b", MacroLevel.SPEC, True), Macro("n", None, "b", MacroLevel.GLOBAL, True)),
        (Macro("n" + s, None, "b", MacroLevel.SPEC, True), Macro("n", None, "b" + s + "x", MacroLevel.SPEC, True)),
        (EVR(version="1" + s, release="1"), EVR(version="1" + s, release="1.1")),
        (NEVR(name="n" + s, version="1"), NEVR(name="n", version="1.2")),
        (NEVRA(name="n" + s, version="1", release="1", arch="noarch"), NEVRA(name="n" + s, version="1", release="1", arch="x86_64")),
    ):
        for v in (x, y):
            e, c = evaluate(repr(v)), copy.deepcopy(v)
            require(v == e and v == c and not (v != e) and not (v != c), "unequal to its copy or its evaluated representation", value=repr(v))
            same(repr(e), repr(v), "representation")
            if not isinstance(v, Comment):
                same((hash(e), hash(c)), (hash(v), hash(v)), "hash")
        require(x != y and not (x == y), "different values are equal", a=repr(x), b=repr(y))
        ctx.step()
    ctx.state(s)


def all_nodes():
    out = []
    for a in NODE_ATOMS:
        try:
            out += ValueParser.parse(a)
        except SpecfileException:
            pass
    return out


ALL_NODES = all_nodes()

# --- formatting of expressions -------------------------------------------------------------------

L40, L90 = "x" * 40, "y" * 90
LEAVES = ["1", "None", "'a'", '"b\'c"', r"'n\n\\'", "''", "<E.A: 1>", "<o <i> at 0x1>", "'<E.A: 1>'", f"'{L40}'", f"'{L90}'", "b'z'", "1.5", f"<{L40}>", "'é'"]
SMALL = ["1", "'a'", "<E.A: 1>", "'<E.A: 1>'", f"'{L40}'", "[]", "()", "f()", "{}", "(1,)"]


def trees(tier):
    yield from LEAVES
    for a in LEAVES:
        yield from (f"[{a}]", f"({a},)", f"( {a}, )", f"{{'k':{a}}}", f"f({a})", f"f(k={a})", f"f( k = {a} )", f"{{{a}:1}}")
    for a, b in itertools.product(LEAVES, LEAVES):
        yield from (f"[{a},{b}]", f"({a}, {b})", f"{{'k': {a}, 2: {b}}}", f"f({a},k={b})")
    for a, b in itertools.product(SMALL, SMALL):
        for c in SMALL if tier != "quick" else SMALL[2:5]:
            yield from (f"f([{a},{b}],({c},))", f"[f({a},k={b}),{{'k':[{c}]}}]", f"({a},g(h({b}),k=f(({c},))))", f"[[{a},[{b},[{c}]]]]")
    for n in range(60, 90):
        for t in ("['%s', 1]", "('%s',)", "f('%s')", "f(k='%s')", "{1: '%s'}", "f('%s', <E.A: 1>)", "[['%s']]"):
            yield t % ("x" * n)


def format_cases(tier):
    for i, t in enumerate(trees(tier)):
        yield t


def scan(text):
    """splits an expression into (is_string, text) pieces, independent of the parser under test"""
    out, i = [], 0
    while i < len(text):
        if text[i] in "'\"":
            j = i + 1
            while text[j] != text[i]:
                j += 2 if text[j] == "\\" else 1
            out.append((True, text[i:j + 1]))
            i = j + 1
        else:
            j = i
            while j < len(text) and text[j] not in "'\"":
                j += 1
            out.append((False, text[i:j]))
            i = j
    return out


def pure(text):
    """replaces <...> outside of strings by names"""

    def sub(code):
        prev = None
        while prev != code:
            prev = code
            code = re.sub(r"<([^<>]*)>", lambda m: "P_" + m.group(1).encode().hex(), code)
        return code

    return "".join(t if s else sub(t) for s, t in scan(text))


def format_run(case, ctx):
    """every expression tree up to the bound: formatting preserves the value and every <...> placeholder, is stable, keeps short expressions on one line and breaks lines longer than the threshold wherever they can be broken"""
    want = ast.dump(ast.parse(pure(case), mode="eval"))
    out = format_expression(case)
    same(ast.dump(ast.parse(pure(out), mode="eval")), want, "value of the formatted expression", formatted=out)
    same(format_expression(out), out, "formatting twice")
    ctx.step()
    single = format_expression(case, 10 ** 6)
    require("\n" not in single, "broken although it fits", formatted=single)
    same(ast.dump(ast.parse(pure(single), mode="eval")), want, "value of the expression on one line", formatted=single)
    if len(pure(single)) <= 80 and len(single) <= 80:
        same(out, single, "short expression")
    for line in out.split("\n"):
        if len(line) > 82 and "<" not in line:
            body = re.sub(r"^ *(\w+=|\w+: |'[^']*': )?", "", line).rstrip(",")
            require(len(scan(body)) == 1 or body[:1] == "b", "a line that could be broken is longer than the threshold", line=line)
    for threshold in (0, 20):
        t = format_expression(case, threshold)
        same(ast.dump(ast.parse(pure(t), mode="eval")), want, "value of the formatted expression", formatted=t, threshold=threshold)
    ctx.state(out)


BAD = ["", "(", "a b", "1 +", "f(", "f(<a)", "lambda: 1", "1 + 1", "x", "f(*a)", "f(x)", "[i for i in y]", "a.b()", "-1", "{**a}", "f(**k)", "<", ">", "<a>>", "{1, 2}", "f(g)(1)", "'a' 'b'", "f'{x}'", "a[1]", "f(-1)", "{1: 2, **z}", "f(**{'a': 1})", "f(**{})", "f(1, **{})", "[<a]", "f(<a", "<a", "f(1, <b)", "[<a>, <b]", "f(\n<a>,\n<b\n)", "[*[1]]", "(*(),)", "f(*[1])", "not 1", "1 < 2", "1 if 1 else 2", "b'x'", "1j", "~1", "+1", "True", "[] == []"]


def bad_cases(tier):
    for i in range(len(BAD)):
        yield i


def bad_run(case, ctx):
    """unsupported or invalid expressions: SyntaxError or SpecfileException, never another exception nor a changed value"""
    text = BAD[case]
    try:
        out = format_expression(text)
    except (SyntaxError, SpecfileException):
        out = None
    if out is not None:
        same(ast.dump(ast.parse(out, mode="eval")), ast.dump(ast.parse(text, mode="eval")), "value of the formatted expression", text=text, formatted=out)
    ctx.step()
    ctx.state(text, out)


# --- whole spec files -----------------------------------------------------------------------------

SPEC = """%global m 1
Name: test
# c
Version: 1
Release: 1
Summary: s
License: l
Source0: a.tar
%description
d
%prep
%setup -q
%changelog
* Mon Jan 01 2024 A <a@b> - 1-1
- c"""


def spec_ops():
    def op(name):
        def deco(f):
            OPS[name] = f
            return f

        return deco

    OPS = {}

    @op("lines")
    def _(s):
        with s.lines() as x:
            x.append("# z")

    @op("tags")
    def _(s):
        with s.tags() as x:
            x.version.value = "2"

    @op("macros")
    def _(s):
        with s.macro_definitions() as x:
            x.m.body = "2"

    @op("sections")
    def _(s):
        with s.sections() as x:
            x.description.append("e")

    @op("prep")
    def _(s):
        with s.prep() as x:
            x.setup.options.n = "z"

    @op("sources")
    def _(s):
        with s.sources() as x:
            x.append(f"b{len(x)}.tar")

    @op("changelog")
    def _(s):
        with s.changelog() as x:
            x.clear()

    @op("release")
    def _(s):
        s.release = "7"

    @op("newline")
    def _(s):
        with s.lines() as x:
            x[-1:] = [x[-1], ""]

    @op("last newline")
    def _(s):
        # only the newline at the end of the file is different
        text = str(s)
        path, elsewhere = s.path, os.path.join(os.getcwd(), "elsewhere.spec")
        write(elsewhere, text[:-1] if text.endswith("\n") else text + "\n")
        s.path = elsewhere
        s.reload()
        s.path = path

    @op("extra")
    def _(s):
        s.macros.append(("x", "1"))

    @op("autosave")
    def _(s):
        s.autosave = True

    @op("force")
    def _(s):
        s.force_parse = True

    @op("sourcedir")
    def _(s):
        s.sourcedir = "/nonexistent"

    @op("path")
    def _(s):
        s.path = "other.spec"

    return OPS


OPS = spec_ops()


def observe(s):
    return str(s), [tuple(m) for m in s.macros or []], s.autosave, s.force_parse, str(s.sourcedir), str(s.path)


def spec_cases(tier):
    for n in ("plain", "newline"):
        for a in OPS:
            yield [n, a, None]
            for b in OPS:
                yield [n, a, b]


def spec_run(case, ctx):
    """every change of a Specfile or of its deep copy, made before or after copying: the other one is not affected, neither in memory nor on disk; they are equal exactly as long as content, path and parameters are"""
    n, a, b = case
    text = SPEC + ("\n" if n == "newline" else "")
    original = load(ctx, text)
    path = str(original.path)
    os.chdir(os.path.dirname(path))
    if b:
        OPS[b](original)
    disk = read(path)
    want = observe(original)
    duplicate = copy.deepcopy(original)
    same(observe(duplicate), want, "state of the copy")
    require(original == duplicate and not (original != duplicate), "the copy is not equal")
    for other in (None, str(original), 0):
        require(original != other and not (original == other), "equal to an unrelated object")
    for changed, kept in ((duplicate, original), (copy.deepcopy(original), original), (original, copy.deepcopy(original))):
        before, before_kept = observe(changed), observe(kept)
        OPS[a](changed)
        after = observe(changed)
        same(observe(kept), before_kept, "state of the other Specfile after a change", change=a)
        if after == before_kept:
            require(changed == kept and kept == changed, "equal Specfiles are unequal", change=a)
        else:
            require(changed != kept and not (changed == kept), "different Specfiles are equal", change=a, kept=before_kept, changed=after)
        if not changed.autosave:
            same(read(path), disk, "the file")
        same(changed.expanded_version, "2" if a == "tags" or b == "tags" else "1", "expansion in the changed Specfile")
        same(kept.expanded_version, "2" if b == "tags" else "1", "expansion in the other Specfile")
        ctx.step()
        ctx.state(after)
    # views of a copy stay with the copy
    with original.sections() as s1, duplicate.sections() as s2:
        s1.description.append("one")
        same(s2.description.data.count("one"), 0, "the view of the copy")


SPACES = [
    FnSpace("objects", object_cases, object_run),
    FnSpace("slices", slice_cases, slice_run),
    FnSpace("pairs", pair_cases, pair_run),
    FnSpace("source items", source_cases, source_run),
    FnSpace("arguments", argument_cases, argument_run),
    FnSpace("constructors", construction_cases, construction_run),
    FnSpace("values", value_cases, value_run),
    FnSpace("format", format_cases, format_run),
    FnSpace("invalid", bad_cases, bad_run),
    FnSpace("specfiles", spec_cases, spec_run),
]
