"""C08 -- sources and patches: what RPM sees, and what an edit changes."""
import itertools
import re

import rpm

from mc.core import FnSpace, Violation, require, same
from mc.lib import HEADER, Oracle, load
from specfile.exceptions import DuplicateSourceException, SourceNumberException, SpecfileException
from specfile.sources import ListPatch, ListSource, TagPatch, TagSource

ASSUMPTIONS = [
    "Source and Patch tags are in the preamble of the main package",
    "entries of %sourcelist have no surrounding white space",
]

KINDS = {
    "Source": dict(list="%sourcelist", other="Patch", tag=TagSource, entry=ListSource),
    "Patch": dict(list="%patchlist", other="Source", tag=TagPatch, entry=ListPatch),
}
FALSE, TRUE, ELSE = "false", "true", "else"
# a unit of the preamble: (tag suffix or None for another line, wrapping)
PRE = {
    "implicit": ("", None),
    "zero": ("0", None),
    "one": ("1", None),
    "five": ("5", None),
    "padded": ("0002", None),
    "padded9": ("0009", None),
    "upper": ("UP", None),
    "implicit-false": ("", FALSE),
    "one-false": ("1", FALSE),
    "implicit-true": ("", TRUE),
    "zero-else": ("0", ELSE),
    "comment": (None, ["", "# comment"]),
    "other": (None, ["{other}0: o", "URL: u"]),
}
LIST = {
    "entry": ("entry", None),
    "macro": ("macro", None),
    "entry-false": ("entry", FALSE),
    "entry-else": ("entry", ELSE),
    "comment": (None, ["", "# comment"]),
    "global": (None, ["%global g 1"]),
    "comment-only": (None, ["# %dnl x"]),
}


def wrap(lines, how):
    if how == FALSE:
        return ["%if 0", *lines, "%endif"]
    if how == TRUE:
        return ["%if 1", *lines, "%endif"]
    if how == ELSE:
        return ["%if 0", "%else", *lines, "%endif"]
    return lines


class Doc:
    """Lines of a spec file and the sources in it: [name or None, location, comments, kind of container]."""

    def __init__(self, kind, pre, lists):
        other = KINDS[kind]["other"]
        self.items = []
        lines = list(HEADER)
        n = itertools.count()
        for u in pre:
            suffix, how = PRE[u]
            if suffix is None:
                lines += [l.format(other=other) for l in how]
                continue
            location = f"f{next(n)}.gz"
            name = kind + suffix if suffix != "UP" else kind.upper()
            self.items.append([name, location, how != FALSE])
            lines += wrap([f"{name}: {location}"], how)
        lines += ["%description", "d"]
        for sl in lists:
            lines.append(KINDS[kind]["list"])
            for u in sl:
                what, how = LIST[u]
                if what is None:
                    lines += how
                    continue
                location = f"f{next(n)}.gz" if what == "entry" else f"%{{name}}-f{next(n)}.gz"
                self.items.append([None, location, how != FALSE])
                lines += wrap([location], how)
        self.lines = lines
        self.text = "\n".join(lines) + "\n"


def numbered(spec, kind):
    flag = 1 if kind == "Source" else 2
    return sorted((n, loc) for loc, n, flags in spec.sources if flags & flag)


def view(spec, kind, **kw):
    return spec.sources(**kw) if kind == "Source" else spec.patches(**kw)


def expand(loc):
    return loc.replace("%{name}", "test")


def check_view(spec, kind, locations, ctx, what, directory):
    """The view against the expected locations, and against RPM's own reading of the text."""
    ctx.step()
    with view(spec, kind) as v:
        items = list(v)
        same(len(v), len(items), f"{what}: len()")
        same([s.location for s in items], locations, f"{what}: wrong sources")
        same([v[i].location for i in range(len(items))], locations, f"{what}: indexing")
        got = [(s.number, expand(s.location), bool(s.valid)) for s in items]
        same([s.expanded_location for s in items], [expand(l) for l in locations], f"{what}: expanded location")
        same(sorted(set(items[k].location in v for k in range(len(items)))), [True] if items else [], f"{what}: in")
        require("nonsense" not in v and v.count("nonsense") == 0, f"{what}: in")
        for l in set(locations):
            same(v.count(l), locations.count(l), f"{what}: count()")
        for s in items:
            require(isinstance(s, (KINDS[kind]["tag"], KINDS[kind]["entry"])), f"{what}: type of a source")
    r = Oracle.parse(str(spec), directory)
    if r is None:
        return None
    same(sorted((n, l) for n, l, valid in got if valid), numbered(r, kind), f"{what}: numbers differ from RPM")
    return got


def doc_cases(tier):
    deep = tier != "quick"
    shapes = [[], [["entry", "entry"]], [["entry-false", "entry"], ["comment", "entry"]]]
    for k in range(4 if deep else 3):
        for pre in itertools.product(PRE, repeat=k):
            for lists in shapes:
                yield dict(pre=list(pre), lists=lists)
    if not deep:
        for pre in itertools.product([u for u in PRE if u not in ("upper", "other", "comment", "padded", "padded9")], repeat=3):
            yield dict(pre=list(pre), lists=shapes[1])
    for pre in ([], ["implicit"], ["five"], ["one", "one-false"]):
        for k in range(4 if deep else 3):
            for sl in itertools.product(LIST, repeat=k):
                yield dict(pre=pre, lists=[list(sl)])
        for k in range(1, 3 if deep else 2):
            for a in itertools.product(LIST, repeat=k):
                for b in itertools.product(LIST, repeat=k):
                    yield dict(pre=pre, lists=[list(a), list(b)])


def read_run(case, ctx):
    """every preamble and list of up to N units, as sources and as patches: the sources in order, with validity and numbers as RPM sees them; slices; nothing changes"""
    for kind in KINDS:
        doc = Doc(kind, case["pre"], case["lists"])
        directory = ctx.fresh_dir()
        if Oracle.parse(doc.text, directory) is None:
            continue
        spec = load(ctx, doc.text)
        locations = [i[1] for i in doc.items]
        check_view(spec, kind, locations, ctx, "reading", directory)
        with view(spec, kind) as v:
            same([bool(s.valid) for s in v], [i[2] for i in doc.items], "validity of sources")
            for s, (name, _, _) in zip(v, doc.items):
                if name and name[-1].isdigit():
                    same(s.number, int(re.sub(r"\D", "", name)), "number of a numbered source")
                same(isinstance(s, KINDS[kind]["tag"]), name is not None, "container of a source")
            for a, b, c in [(None, None, None), (1, None, None), (None, -1, None), (5, 9, None), (None, None, -1), (-2, 9, 2)]:
                same([s.location for s in v[a:b:c]], locations[a:b:c], f"slice {a}:{b}:{c}")
        same(str(spec), doc.text, "reading changes the spec file")
        ctx.state(kind, doc.text)


# --- edits -------------------------------------------------------------------------------

NEW = "new.gz"


def e_append(v, m):
    v.append(NEW)
    m.append(NEW)


def e_append_duplicate(v, m):
    if not m:
        return False
    for call in (lambda: v.append(m[-1]), lambda: v.insert(0, m[0]), lambda: v.insert_numbered(7, m[-1])):
        try:
            call()
        except DuplicateSourceException as e:
            require(isinstance(e, SpecfileException), "type of the exception")
            continue
        raise Violation("a duplicate is accepted")


def e_append_duplicate_allowed(v, m):
    if not m:
        return False
    v.append(m[0])
    m.append(m[0])


def e_extend(v, m):
    v.extend(["n1", "n2"])
    m.extend(["n1", "n2"])


def e_iadd(v, m):
    v += ["n1"]
    m += ["n1"]


def e_clear(v, m):
    v.clear()
    m.clear()


def e_pop(v, m):
    if not m:
        return False
    same(v.pop().location, m.pop(), "pop()")


def e_pop0(v, m):
    if not m:
        return False
    same(v.pop(0).location, m.pop(0), "pop(0)")


def e_remove_missing(v, m):
    v.remove("nonsense")
    v.remove_numbered(4711)


def at(i):
    def insert(v, m):
        v.insert(i, NEW)
        m.insert(i, NEW)

    def delete(v, m):
        if not -len(m) <= i < len(m):
            try:
                del v[i]
            except IndexError:
                return
            raise Violation("deleting at an index out of range does not fail")
        del v[i]
        del m[i]

    def assign(v, m):
        if not -len(m) <= i < len(m):
            return False
        v[i] = NEW
        m[i] = NEW

    def location(v, m):
        if not -len(m) <= i < len(m):
            return False
        v[i].location = "%{name}-x"
        m[i] = "%{name}-x"

    def comment(v, m):
        if not -len(m) <= i < len(m):
            return False
        v[i].comments.append("C")

    def remove(v, m):
        if not -len(m) <= i < len(m):
            return False
        v.remove(m[i])
        m.remove(m[i])

    def remove_numbered(v, m):
        if not -len(m) <= i < len(m):
            return False
        n = v[i].number
        k = next(k for k, s in enumerate(v) if s.number == n)
        v.remove_numbered(n)
        del m[k]

    return dict(insert=insert, delete=delete, assign=assign, location=location, comment=comment, remove=remove, remove_numbered=remove_numbered)


def numbered_at(n):
    def insert_numbered(v, m):
        k = v.insert_numbered(n, NEW)
        m.insert(k, NEW)
        same(v[k].location, NEW, f"insert_numbered({n}) returns a wrong index")
        same(v[k].number, n, f"insert_numbered({n}): number of the new source")

    return insert_numbered


def sl(a, b, c):
    def del_slice(v, m):
        del v[a:b:c]
        del m[a:b:c]

    def set_slice(v, m):
        k = len(m[a:b:c])
        values = [f"s{j}" for j in range(k)]
        v[a:b:c] = values
        m[a:b:c] = values

    def grow(v, m):
        values = m[a:b:c] + ["s0", "s1"]
        v[a:b:c] = values
        m[a:b:c] = values

    def shrink(v, m):
        values = m[a:b:c][:-1]
        v[a:b:c] = values
        m[a:b:c] = values

    if c is not None:
        return dict(delete=del_slice, assign=set_slice)
    return dict(delete=del_slice, assign=set_slice, grow=grow, shrink=shrink)


EDITS = {k[2:]: v for k, v in list(globals().items()) if k.startswith("e_")}
for i in (0, 1, 2, 9, -1, -2, -9):
    for k, f in at(i).items():
        if i in (2, 9, -2, -9) and k not in ("insert", "delete"):
            continue
        EDITS[f"{k}[{i}]"] = f
for n in (0, 1, 3, 9):
    EDITS[f"insert_numbered({n})"] = numbered_at(n)
for a, b, c in [(0, 2, None), (2, 0, None), (1, None, None), (None, None, 2), (5, 9, None), (None, None, -1)]:
    for k, f in sl(a, b, c).items():
        EDITS[f"{k}[{a}:{b}:{c}]"] = f

KEEP_NAMES = re.compile(r"append|extend|iadd|clear|pop|remove|delete|assign|location|comment")


def source_lines(text, kind):
    """[(tag name or None, location)] of all sources in the text; independent of the code under test."""
    result, other = [], []
    inside = None
    for line in text.splitlines():
        low = line.lower()
        if low in ("%sourcelist", "%patchlist", "%description"):
            inside = low
            other.append(line)
            continue
        if inside is None:
            m = re.match(rf"({kind}\d*)(\s*:\s*)(.*)$", line, re.I)
            if m:
                result.append((m.group(1), m.group(3)))
                continue
        elif inside == KINDS[kind]["list"] and line and not re.match(r"#|%(if|else|endif|global)", line):
            result.append((None, line))
            continue
        if line:
            other.append(line)
    return result, other


SHORT = [
    "append", "extend", "append_duplicate_allowed", "insert[0]", "insert[1]", "insert[-1]", "delete[0]", "delete[1]", "delete[-1]",
    "insert_numbered(0)", "insert_numbered(1)", "insert_numbered(3)", "insert_numbered(9)", "delete[None:None:2]", "remove[1]", "remove_numbered[1]", "assign[1]",
]


def edit_cases(tier):
    deep = tier != "quick"
    lists = [[], [["entry", "entry"]], [[]], [["entry-false"], ["comment", "entry", "global", "entry-else"]]]
    two = ["implicit", "zero", "one", "five", "padded", "padded9", "one-false", "zero-else", "comment"]
    for kind in KINDS:
        for k in range(2):
            for pre in itertools.product(PRE, repeat=k):
                for l in lists if deep or not k or kind == "Source" else lists[1:2]:
                    yield dict(kind=kind, pre=list(pre), lists=l, edits="all")
    for kind in KINDS:
        for n, pre in enumerate(itertools.product(PRE if deep else two, repeat=2)):
            for l in lists if deep else lists[:1]:
                if deep or (n % 2 == 0) == (kind == "Source"):
                    yield dict(kind=kind, pre=list(pre), lists=l, edits="all" if deep else "short")
    for kind in KINDS if deep else ["Source"]:
        for pre in itertools.product(two if deep else ["implicit", "zero", "five", "one-false"], repeat=3):
            yield dict(kind=kind, pre=list(pre), lists=[], edits="short")
    for kind in KINDS if deep else ["Patch"]:
        for pre in [[], ["zero"]] if deep else [["zero"]]:
            for k in range(1, 4 if deep else 3):
                for a in itertools.product(LIST, repeat=k):
                    yield dict(kind=kind, pre=pre, lists=[list(a)], edits="all" if deep else "short")


def edit_run(case, ctx):
    """every edit of sources/patches on every spec file of up to N units: a list of locations is the model, other lines stay, RPM accepts the result with the same numbers"""
    kind = case["kind"]
    doc = Doc(kind, case["pre"], case["lists"])
    directory = ctx.fresh_dir()
    r = Oracle.parse(doc.text, directory)
    if r is None:
        return
    before, other = source_lines(doc.text, kind)
    same([l for _, l in before], [i[1] for i in doc.items], "harness: reference reading")
    spec = load(ctx, doc.text)
    for name in EDITS if case["edits"] == "all" else SHORT:
        f = EDITS[name]
        with spec.lines() as lines:
            lines[:] = doc.lines
        what = name
        m = [i[1] for i in doc.items]
        with view(spec, kind, allow_duplicates=name == "append_duplicate_allowed") as v:
            if f(v, m) is False:
                continue
            same([s.location for s in v], m, f"{what}: sources inside of the view")
            inside = [(s.number, s.valid) for s in v]
        text = str(spec)
        after, other2 = source_lines(text, kind)
        same([l for _, l in after], m, f"{what}: sources in the text")
        comment = ["# C"] if name.startswith("comment") else []
        same([l for l in other2 if l not in comment], other_after(other, doc, m, before, after), f"{what}: other lines")
        if name.startswith(("delete", "remove", "pop")) and Oracle.parse(text, directory) is None:
            # deleting may change the number of an implicitly numbered source
            require(len({bool(re.search(r"\d", n)) for n, _ in before if n}) > 1, f"{what}: RPM does not accept the result", text=text)
            continue
        got = check_view(spec, kind, m, ctx, what, directory)
        require(got is not None, f"{what}: RPM does not accept the result", text=text)
        if all(valid for _, _, valid in got):
            # the validity of a new source next to a condition is known only after reading it again
            same(inside, [(n, valid) for n, _, valid in got], f"{what}: numbers and validity inside of the view", text=text)
        # names
        if KEEP_NAMES.match(name):
            kept = [b for b in before if b[1] in m or name.startswith(("assign", "location"))]
            if name.startswith(("assign", "location")):
                same([n for n, _ in after], [n for n, _ in before], f"{what}: names of tags")
            else:
                old = [a for a in after if any(a[1] == b[1] for b in before)]
                same(old[: len(kept)], kept, f"{what}: untouched sources")
        elif name.startswith("insert"):
            unaffected(before, after, got, what)
            n = sum(1 for a, _ in after if a)
            numbers = [s[0] for s in got if s[2]][:n]
            if name.startswith("insert_numbered") and ascending([int(re.sub(r"\D", "", a) or -1) for a, _ in before if a]):
                require(ascending(numbers), f"{what}: numbers in disorder", numbers=numbers)
        style(before, after, what, kind, name)
        ctx.state(kind, text)


def other_after(other, doc, m, before, after):
    """Lines that are not sources stay, except comments that go with a deleted source."""
    gone = {l for _, l in before} - {l for _, l in after}
    if not gone:
        return other
    # reconstruct from the document: a comment directly above a source that is gone
    result, pending = [], []
    for line in doc.lines:
        is_source = any(line.endswith(l) for _, l in before)
        if is_source:
            if not any(line.endswith(l) for l in gone):
                result += pending
            elif len(m) >= len(before):
                result += pending  # the source was given another location
            pending = []
        elif line.startswith("#"):
            pending.append(line)
        else:
            result += pending
            pending = []
            if line:
                result.append(line)
    return result + pending


def ascending(numbers):
    return min(numbers, default=0) >= 0 and all(a < b for a, b in zip(numbers, numbers[1:]))


def unaffected(before, after, got, what):
    """Inserting renames only tags whose numbers collide with the new one or with another renamed one."""
    k = [l for _, l in after].index(NEW)
    same(after[:k], before[:k], f"{what}: sources in front of the new one")
    taken = {got[k][0]}
    for b, a, (number, _, _) in zip(before[k:], after[k + 1:], got[k + 1:]):
        if b[0] is None:
            continue
        digits = re.sub(r"\D", "", b[0])
        if a[0] != b[0]:
            require(not digits or int(digits) in taken, f"{what}: {b[0]} needn't have been renamed to {a[0]}")
            taken.add(number)
        elif not digits:
            taken.add(number)


def style(before, after, what, kind, name):
    """A new tag is written like the others."""
    names = [n for n, _ in before if n]
    new = [n for n, l in after if n and l in (NEW, "n1", "n2") and l not in [x for _, x in before]]
    if not new or name.startswith(("assign", "location")):
        return
    if len(names) > 1 and not any(c.isdigit() for n in names for c in n) and not name.startswith("insert_numbered"):
        require(all(n.lower() == kind.lower() for n in new), f"{what}: numbered among implicitly numbered ones", names=new)
    if names and all(re.fullmatch(kind + r"0\d{3}", n) for n in names):
        require(all(re.fullmatch(kind + r"\d{4}", n) for n in new), f"{what}: number of digits", names=new)


# --- adding to nothing, add_patch ---------------------------------------------------------


def initial_cases(tier):
    for kind in KINDS:
        for implicit in (False, True):
            for digits in (0, 1, 4):
                for op in ["append", "insert_numbered(0)", "insert_numbered(3)", "extend"]:
                    for pre in ([], ["other"], ["comment"]):
                        yield dict(kind=kind, implicit=implicit, digits=digits, op=op, pre=pre)


def initial_run(case, ctx):
    """the first source or patch, with every default style"""
    kind = case["kind"]
    doc = Doc(kind, case["pre"], [])
    spec = load(ctx, doc.text)
    directory = ctx.fresh_dir()
    m = []
    with view(spec, kind, default_to_implicit_numbering=case["implicit"], default_source_number_digits=case["digits"]) as v:
        EDITS[case["op"]](v, m)
    got = check_view(spec, kind, m, ctx, case["op"], directory)
    require(got is not None, "RPM does not accept the result")
    after, other = source_lines(str(spec), kind)
    same(other, source_lines(doc.text, kind)[1], "other lines")
    first = after[0][0]
    want = 3 if "(3)" in case["op"] else 0
    same(got[0][0], want, "number")
    if want == 0 and (case["implicit"] or case["digits"] == 0):
        if not (kind == "Patch" and case["pre"] == ["other"]):
            same(first, kind, "implicit numbering requested")
    elif not case["implicit"] and case["digits"]:
        same(first, f"{kind}{want:0{case['digits']}}", "number of digits requested")
    ctx.state(str(spec))


def add_patch_cases(tier):
    deep = tier != "quick"
    units = ["implicit", "zero", "one", "five", "padded", "one-false", "other"]
    for k in range(4 if deep else 3):
        for pre in itertools.product(units, repeat=k):
            for lists in ([], [["entry", "entry"]]):
                if deep or k < 2 or not lists:
                    yield dict(pre=list(pre), lists=lists)


def add_patch_run(case, ctx):
    """add_patch() with every combination of arguments: number, digits, comment; refusal of a number that is not higher than the others"""
    doc = Doc("Patch", case["pre"], case["lists"])
    directory = ctx.fresh_dir()
    r = Oracle.parse(doc.text, directory)
    if r is None:
        return
    before, other = source_lines(doc.text, "Patch")
    spec = load(ctx, doc.text)
    with spec.patches() as v:
        highest = max((p.number for p in v), default=-1)
    for number in (None, 0, 2, highest, highest + 1, highest + 20):
        for initial in (0, 7):
            for digits in (1, 4):
                for comment in (None, "one\ntwo"):
                    with spec.lines() as lines:
                        lines[:] = doc.lines
                    want = number if number is not None else max(highest + 1, initial)
                    try:
                        spec.add_patch(NEW, number, comment, initial, digits)
                    except SourceNumberException:
                        require(number is not None and number <= highest, "a good number is refused", number=number)
                        same(str(spec), doc.text, "a refused add_patch() changes something")
                        continue
                    require(number is None or number > highest, "a number that is not higher is accepted", number=number)
                    after, other2 = source_lines(str(spec), "Patch")
                    extra = ["# one", "# two"] if comment else []
                    same([l for l in other2 if l not in extra], other, "other lines")
                    same([a for a in after if a[1] != NEW], before, "other patches")
                    with spec.patches() as v:
                        got = [(p.number, p.location, [c.text for c in p.comments]) for p in v if p.location == NEW]
                    same(got, [(want, NEW, comment.split("\n") if comment else [])], "the new patch")
                    r = Oracle.parse(str(spec), directory)
                    require(r is not None, "RPM does not accept the result", text=str(spec))
                    require((want, NEW) in numbered(r, "Patch"), "RPM does not see the new patch under its number", text=str(spec))
                    if not before:
                        require(after[0][0] == f"Patch{want:0{digits}}", "number of digits", name=after[0][0])
                    ctx.step()
    ctx.state(doc.text)


def pair_cases(tier):
    units = ["implicit", "zero", "one", "five", "one-false"]
    n = 2 if tier == "quick" else 3
    for k in range(n + 1):
        for pre in itertools.product(units, repeat=k):
            for lists in ([], [["entry-false", "entry"]]):
                if tier != "quick" or k < 2 or not lists:
                    yield dict(pre=list(pre), lists=lists)


PAIR_EDITS = ["append", "insert[0]", "insert[-1]", "insert[1]", "delete[0]", "delete[-1]", "insert_numbered(1)", "insert_numbered(9)", "assign[0]", "comment[0]"]


def pair_run(case, ctx):
    """every pair of edits within one view"""
    doc = Doc("Source", case["pre"], case["lists"])
    directory = ctx.fresh_dir()
    if Oracle.parse(doc.text, directory) is None:
        return
    spec = load(ctx, doc.text)
    for a, b in itertools.product(PAIR_EDITS, repeat=2):
        with spec.lines() as lines:
            lines[:] = doc.lines
        m = [i[1] for i in doc.items]
        with spec.sources(allow_duplicates=True) as v:
            if EDITS[a](v, m) is False or EDITS[b](v, m) is False:
                continue
            same([s.location for s in v], m, f"{a}, {b}: sources inside of the view")
        after, _ = source_lines(str(spec), "Source")
        same([l for _, l in after], m, f"{a}, {b}: sources in the text")
        got = check_view(spec, "Source", m, ctx, f"{a}, {b}", directory)
        require(got is not None, f"{a}, {b}: RPM does not accept the result", text=str(spec))
        ctx.state(str(spec))


# --- the same location more than once ----------------------------------------------------

LOCATIONS = ["a.gz", "%{name}.gz", "test.gz"]


def same_cases(tier):
    n = 3 if tier == "quick" else 4
    for kind in KINDS:
        for k in range(n + 1):
            for locs in itertools.product(range(3), repeat=k):
                for tags in range(k + 1):
                    yield dict(kind=kind, locations=list(locs), tags=tags)


def same_run(case, ctx):
    """every sequence of up to N of three locations (two of which expand to the same), divided between tags and a list: count(), in, remove() (all of them) and insertion with and without duplicates go by the literal location"""
    kind = case["kind"]
    m = [LOCATIONS[i] for i in case["locations"]]
    head = ["Name: test", "Version: 1", "Release: 1", "Summary: s", "License: l"]
    items = [f"{kind}{2 * n}: {l}" for n, l in enumerate(m[: case["tags"]])] + m[case["tags"] :]
    tail = ["", "%description", "d"]

    def lines(ls):
        tags, entries = [l for l in ls if ":" in l], [l for l in ls if ":" not in l]
        return head + tags + [KINDS[kind]["list"]] + entries + tail

    spec = load(ctx, "\n".join(lines(items)) + "\n")
    for loc in LOCATIONS + ["test"]:
        with view(spec, kind) as v:
            same(v.count(loc), m.count(loc), f"count({loc})")
            same(loc in v, loc in m, f"{loc} in sources")
            for call in (lambda: v.append(loc), lambda: v.insert(0, loc), lambda: v.insert_numbered(1, loc)):
                if loc not in m:
                    break
                try:
                    call()
                except DuplicateSourceException:
                    continue
                raise Violation("a duplicate is accepted", location=loc)
            v.remove(loc)
            ctx.step()
            same([s.location for s in v], [l for l in m if l != loc], f"remove({loc}): sources inside of the view")
        same(str(spec).splitlines(), lines([l for l in items if l.split(": ")[-1] != loc]), f"remove({loc}): lines")
        with spec.lines() as ls:
            ls[:] = lines(items)
    for loc in LOCATIONS:
        for i in (0, 1, len(m)):
            with view(spec, kind, allow_duplicates=True) as v:
                v.insert(i, loc)
                ctx.step()
                expected = list(m)
                expected.insert(i, loc)
                same([s.location for s in v], expected, f"insert({i}, {loc}) with duplicates allowed")
            with view(spec, kind) as v:
                same([s.location for s in v], expected, f"insert({i}, {loc}): reading again")
                numbers = [s.number for s in v]
                require(len(set(numbers)) == len(numbers), f"insert({i}, {loc}): duplicate numbers", numbers=numbers)
            with spec.lines() as ls:
                ls[:] = lines(items)
    ctx.state(kind, tuple(m), case["tags"])


SPACES = [
    FnSpace("reading", doc_cases, read_run),
    FnSpace("edits", edit_cases, edit_run, timeout=120),
    FnSpace("pairs", pair_cases, pair_run, timeout=120),
    FnSpace("initial", initial_cases, initial_run),
    FnSpace("same", same_cases, same_run),
    FnSpace("add_patch", add_patch_cases, add_patch_run, timeout=120),
]
