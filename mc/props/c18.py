"""C18 -- lookups by name find exactly the right item; tag properties read and change exactly their tag."""
import itertools

from mc.core import FnSpace, Violation, require, same
from mc.lib import Oracle, load, words
from specfile.exceptions import SpecfileException
from specfile.macro_definitions import MacroDefinitions
from specfile.prep import AutopatchMacro, AutosetupMacro, PatchMacro, SetupMacro
from specfile.tags import Comment, Comments, Tags

ASSUMPTIONS = ["RPM 4.18.2 decides which value a tag has"]

MISSING = object()


def outcome(f, *errors):
    try:
        return f()
    except errors:
        return MISSING


def key(i):
    return (i.name, i.value, Tags([i]).get_raw_section_data()[-1 - i.value.count("\n"):], i.comments.raw) if hasattr(i, "value") else (i.name, str(i))


# --- lookups by name ------------------------------------------------------------------------------

TAG_UNITS = [
    [("Name: a", "name", True)],
    [("NAME: b", "name", True)],
    [("%if 0", None, None), ("Name: c", "name", False), ("%endif", None, None)],
    [("Requires: d", "requires", True)],
    [("Requires(post): e", "requires(post)", True)],
    [("# Version: 1", None, None), ("Source0: f", "source0", True)],
    [("source: g", "source", True), ("", None, None)],
    [("%{!?y:Epoch: 2}", "epoch", True)],
    [("%if 1", None, None), ("%else", None, None), ("Source0: h", "source0", False), ("%endif", None, None)],
]
TAG_QUERIES = ["name", "NAME", "Name", "nAmE", "requires", "Requires(post)", "REQUIRES(POST)", "requires(pre)", "source0", "Source", "source00", "sourc", "epoch", "version", "nam", "name ", "", "# version"]

MD_UNITS = [
    [("%global a 1", "a", True)],
    [("%define a 2", "a", True)],
    [("%if 0", None, None), ("%global a 3", "a", False), ("%endif", None, None)],
    [("%dnl %global a 4", "a", True)],
    [("%global A 5", "A", True)],
    [("%global a(x) 6", "a(x)", True)],
    [("%global ab 7", "ab", True), ("", None, None)],
    [("%global count 8", "count", True)],
    [("# a", None, None), ("%global data \\", "data", True), (" 9", None, None)],
]
MD_QUERIES = ["a", "A", "ab", "a(x)", "count", "data", "b", "aB", "", "x", "get", "a ", "%a"]

PREAMBLE = ["Name: n", "Version: 1", "Release: 1", "Summary: s", "License: l"]


def lookup_cases(tier):
    for kind, units in (("tags", TAG_UNITS), ("macros", MD_UNITS)):
        for w in words(range(len(units)), 0, 2 if tier == "quick" else 3):
            yield [kind, list(w)]
        if tier == "quick":
            for w in itertools.product((0, 2, 3 if kind == "macros" else 1, 8), repeat=3):
                yield [kind, list(w)]


def lookup_run(case, ctx):
    """every sequence of tags or macro definitions with repeated names in different case, in false branches, commented out or named like methods: `in`, find(), get(), attributes, assignment and deletion, with and without a position, all mean the first valid item of that name (the first one if none is valid) and nothing else"""
    kind, w = case
    units, queries = (TAG_UNITS, TAG_QUERIES) if kind == "tags" else (MD_UNITS, MD_QUERIES)
    lines = [l for i in w for l in units[i]]
    items = [(name, valid) for _, name, valid in lines if name]
    # positions in the file
    body = [l for l, _, _ in lines]
    # tags are looked up in a section of their own, so that RPM's rules for the main package do not matter
    if kind == "tags":
        doc = PREAMBLE + ["%description", "d", "%package x", "Summary: s"] + body + ["%description x", "d"]
        items = [("summary", True)] + items
    else:
        doc = body + PREAMBLE + ["%description", "d"]
    text = "\n".join(doc) + "\n"
    if kind == "tags":
        # not parsed by RPM as such (some tags may not be repeated): parse the section in the context of a valid document
        spec = load(ctx, "\n".join(PREAMBLE + ["%description", "d"]) + "\n")
        from specfile.sections import Section

        section = Section("package", data=["Summary: s"] + body)
        build = lambda: Tags.parse(section, spec)
        fold = str.lower
        raw = lambda x: x.get_raw_section_data()
        original = section.data
    else:
        spec = load(ctx, text)
        build = lambda: MacroDefinitions.parse(body, with_conditions=True, context=spec)
        fold = str
        raw = lambda x: x.get_raw_data()
        original = body
    x = build()
    same([(fold(i.name), i.valid) for i in x], items, "items and their validity", lines=original)
    positions = [i.get_position(x) for i in x]
    same(len(set(positions)), len(positions), "number of different positions", positions=positions)
    for q in queries:
        matches = [i for i, (n, _) in enumerate(items) if n == fold(q)]
        valid = [i for i in matches if items[i][1]]
        first = (valid or matches or [None])[0]
        same(q in x, bool(matches), "in", query=q, lines=original)
        same(outcome(lambda: x.find(q), ValueError), MISSING if first is None else first, "find()", query=q, lines=original)
        got = outcome(lambda: x.get(q), ValueError)
        require(got is (MISSING if first is None else x[first]), "get()", query=q, lines=original)
        for i, p in enumerate(positions):
            want = i if i in matches else MISSING
            same(outcome(lambda: x.find(q, p), ValueError), want, "find() with a position", query=q, position=p, lines=original)
            require(outcome(lambda: x.get(q, p), ValueError) is (MISSING if want is MISSING else x[i]), "get() with a position", query=q, position=p)
        for p in (-1, max(positions, default=0) + 1, 1000):
            same(outcome(lambda: x.find(q, p), ValueError), MISSING, "find() with a position where nothing is", query=q, position=p)
            same(outcome(lambda: x.get(q, p), ValueError), MISSING, "get() with a position where nothing is", query=q, position=p)
        ctx.step()
        if not q or hasattr(type(x), q) or q in ("data",):
            continue
        got = outcome(lambda: getattr(x, q), AttributeError)
        require(got is (MISSING if first is None else x[first]), "attribute", query=q, lines=original)
        # assignment changes that item only
        y = build()
        before = [key(i) for i in y]
        value = "changed"
        if first is not None:
            setattr(y, q, value)
            same(y[first].value if kind == "tags" else y[first].body, value, "value after an assignment", query=q)
            same([b for i, b in enumerate(before) if i != first], [key(i) for k, i in enumerate(y) if k != first], "other items after an assignment", query=q, lines=original)
            ctx.state(raw(y))
            y = build()
            delattr(y, q)
            same([key(i) for i in y], [b for i, b in enumerate(before) if i != first], "items after deleting by name", query=q, lines=original)
            y = build()
            replacement = build()[-1]
            setattr(y, q, replacement)
            require(y[first] is replacement, "item after an assignment of an item", query=q)
        else:
            same(outcome(lambda: delattr(y, q), AttributeError), MISSING, "deletion of a missing item", query=q)
            same(raw(y), original, "lines after deletion of a missing item", query=q)
        ctx.step()


# --- prep macros and comments ---------------------------------------------------------------------

PREP_UNITS = [("%setup -q", "%setup"), ("%patch 1", "%patch"), ("%patch1 -p1", "%patch1"), ("%patch -P 2", "%patch"), ("%patch12", "%patch12"), ("%autosetup", "%autosetup"), ("%autopatch -p1", "%autopatch"), ("# text", None), ("%{?x:%patch3 -p1}", "%patch3")]
PREP_QUERIES = ["setup", "patch", "patch1", "patch12", "patch2", "patch3", "autosetup", "autopatch", "auto", "patchx", "set"]
CLASSES = {SetupMacro: "%setup", PatchMacro: "%patch", AutosetupMacro: "%autosetup", AutopatchMacro: "%autopatch"}


def prep_cases(tier):
    for w in words(range(len(PREP_UNITS)), 0, 3 if tier == "quick" else 4):
        yield list(w)


def prep_run(case, ctx):
    """every sequence of %prep macros: `in` with names and classes, find(), attributes and deletion by name mean the first macro with exactly that name"""
    from specfile.prep import Prep
    from specfile.sections import Section

    lines = [PREP_UNITS[i][0] for i in case]
    names = [PREP_UNITS[i][1] for i in case if PREP_UNITS[i][1]]
    build = lambda: Prep.parse(Section("prep", data=lines))
    x = build()
    same([m.name for m in x.macros], names, "names", lines=lines)
    for c, prefix in CLASSES.items():
        want = [n for n in names if n == prefix or prefix == "%patch" and n.startswith(prefix)]
        same((c in x, c in x.macros), (bool(want), bool(want)), "in with a class", cls=c.__name__, lines=lines)
        same(sum(isinstance(m, c) for m in x.macros), len(want), "number of macros of a class", cls=c.__name__)
    for q in PREP_QUERIES:
        full = "%" + q
        first = names.index(full) if full in names else None
        isin = full in names or full == "%patch" and any(n.startswith("%patch") for n in names)
        same((full in x, full in x.macros), (isin, isin), "in", query=full, lines=lines)
        require(q not in x, "found without the percent sign", query=q)
        same(outcome(lambda: x.macros.find(full), ValueError), MISSING if first is None else first, "find()", query=full, lines=lines)
        for owner in (x, x.macros):
            got = outcome(lambda: getattr(owner, q), AttributeError)
            require(got is (MISSING if first is None else x.macros[first]), "attribute", query=q, lines=lines)
            same(hasattr(owner, q), first is not None, "hasattr", query=q)
        y = build()
        got = outcome(lambda: delattr(y, q), AttributeError)
        want = [n for i, n in enumerate(names) if i != first]
        same([m.name for m in y.macros], want, "macros after deleting by name", query=q, lines=lines)
        if first is None:
            same(got, MISSING, "deletion of a missing macro")
            same(y.get_raw_section_data(), lines, "lines")
        ctx.step()
    ctx.state(lines)


COMMENT_TEXTS = ["a", "b", "a b", "", "# a", "é"]


def comment_cases(tier):
    for w in words(range(len(COMMENT_TEXTS)), 0, 3 if tier == "quick" else 4):
        yield list(w)


def comment_run(case, ctx):
    """every list of comments: `in`, index(), raw and every way to add, replace or remove a comment given as a text or as an object agree with a list of texts"""
    texts = [COMMENT_TEXTS[i] for i in case]
    build = lambda: Comments([Comment(t) for t in texts], ["%if 1", ""])
    x = build()
    same(x.raw, texts, "raw")
    same(x.get_raw_data(), ["%if 1", ""] + ["# " + t for t in texts], "lines")
    for q in COMMENT_TEXTS + ["c", "A", "a "]:
        same((q in x, Comment(q) in x), (q in texts, q in texts), "in", query=q, texts=texts)
        want = texts.index(q) if q in texts else MISSING
        same(outcome(lambda: x.index(q), ValueError), want, "index()", query=q, texts=texts)
        same(outcome(lambda: x.index(Comment(q)), ValueError), want, "index()", query=q, texts=texts)
        for lo, hi in itertools.combinations(range(4), 2):
            want = outcome(lambda: texts.index(q, lo, hi), ValueError)
            same(outcome(lambda: x.index(q, lo, hi), ValueError), want, "index() in a range", query=q, texts=texts, lo=lo, hi=hi)
        same(Comment(q, "#") in x, False, "in with another prefix")
        same((x.count(q), x.count(Comment(q)), x.count(Comment(q, "#"))), (texts.count(q), texts.count(q), 0), "count()", query=q, texts=texts)
        for item in (q, Comment(q)):
            y, m = build(), list(texts)
            same(outcome(lambda: y.remove(item), ValueError), outcome(lambda: m.remove(q), ValueError), "remove()", query=q, texts=texts)
            same(y.raw, m, "comments after remove()", query=q, texts=texts)
        same(outcome(lambda: build().remove(Comment(q, "#")), ValueError), MISSING, "remove() with another prefix")
        ctx.step()
    for new in (lambda t: t, Comment):
        for op in range(9):
            for i in range(-len(texts) - 1, len(texts) + 2):
                y, m = build(), list(texts)
                try:
                    m = edit(m, op, i, lambda t: t)
                except IndexError:
                    m = None
                try:
                    y = edit(y, op, i, new)
                    got = y.raw
                except IndexError:
                    got = None
                same(got, m, "comments after an edit", op=op, i=i, texts=texts)
                if got is not None:
                    same(y.get_raw_data(), ["%if 1", ""] + ["# " + t for t in m], "lines after an edit", op=op, i=i, texts=texts)
                same(x.raw, texts, "another list of comments")
                ctx.step()
                ctx.state(got)


def edit(x, op, i, new):
    if op == 0:
        x.insert(i, new("n"))
    elif op == 1:
        x[i] = new("n")
    elif op == 2:
        x.append(new("n"))
    elif op == 3:
        x.extend([new("n"), new("m")])
    elif op == 4:
        del x[i]
    elif op == 5:
        x[i:i + 1] = [new("n"), new("m")]
    elif op == 6:
        x += [new("n"), new("m")]
    elif op == 7:
        x = x + [new("n")]
    else:
        x += x
    return x


# --- tag properties -------------------------------------------------------------------------------

PROPS = {
    "name": "Name", "version": "Version", "raw_release": "Release", "summary": "Summary", "license": "License", "epoch": "Epoch", "url": "URL",
}
BASE = {"Name": "test", "Version": "1.2", "Release": "3%{?dist}", "Summary": "s %{name}", "License": "MIT", "Epoch": "4", "URL": "https://x/%{name}/%{m}"}
VALUES = {
    "Name": ["other", "a-%{m}", "x+y.z"],
    "Version": ["2", "%{m}.0", "1~rc1^git"],
    "Release": ["5", "5%{?dist}.1", "0.%{m}"],
    "Summary": ["text", "é %{m} %%", "a:b", "%{?undefined:x}y", "'q' \"r\" \\ z"],
    "License": ["GPL-2.0-or-later AND MIT", "(A OR B)"],
    "Epoch": ["5", "%{m}0"],
    "URL": ["http://y/?a=b#c", "%{m}"],
}
# how a tag is written: (lines, index of the line with the effective tag, text before and after the value)
FORMS = {
    "plain": lambda t, v: (["%s: %s" % (t, v)], 0),
    "case": lambda t, v: (["%s:\t  %s" % (t.upper(), v)], 0),
    "lower": lambda t, v: (["%s : %s  " % (t.lower(), v)], 0),
    "commented": lambda t, v: (["# %s: old" % t, "%s:%s" % (t, v)], 1),
    "false first": lambda t, v: (["%if 0", "%s: 9" % t, "%else", "%s: %s" % (t, v), "%endif"], 3),
    "false last": lambda t, v: (["%if 1", "%s: %s" % (t, v), "%else", "%s: 9" % t, "%endif"], 1),
    "conditional": lambda t, v: (["%%{!?q:%s: %s}" % (t, v)], 0),
    "absent": lambda t, v: ([], None),
    "only false": lambda t, v: (["%if 0", "%s: 9" % t, "%endif"], 1),
}
RPMTAG = {"Name": "name", "Version": "version", "Release": "release", "Summary": "summary", "License": "license", "Epoch": "epoch", "URL": "url"}


def prop_cases(tier):
    for p in PROPS:
        for f in FORMS:
            if f in ("absent", "only false") and PROPS[p] not in ("Epoch", "URL"):
                continue
            for place in (0, 3, 6):
                yield [p, f, place]


def prop_run(case, ctx):
    """every tag property x every way to write the tag, with and without sub packages that have the same tag: the literal and the expanded value are those of the effective tag (None if there is none), the expanded one is what RPM reads, assigning changes exactly the value and nothing else, and assigning a missing tag raises AttributeError"""
    p, f, place = case
    tag = PROPS[p]
    forms, at = FORMS[f](tag, BASE[tag])
    order = [t for t in BASE if t != tag and t not in ("Epoch", "URL")]
    if tag != "Name":
        order.remove("Name")
    head = ["%global m 7"] + ([] if tag == "Name" else ["Name: " + BASE["Name"]])
    rest = ["%s: %s" % (t, BASE[t]) for t in order if t != "Name"]
    k = min(place, len(rest)) if tag != "Name" else 0
    start = len(head) + k
    lines = head + rest[:k] + forms + rest[k:]
    tail = ["%description", "URL: z", "Version: 3", "", "%package sub", "Summary: sub", "%s: 8" % tag if tag in ("Version", "License", "URL", "Epoch", "Summary") else "# x", "%description sub", "d"]
    lines = lines + tail
    text = "\n".join(lines) + "\n"
    oracle = Oracle.parse(text, ctx.fresh_dir())
    require(oracle is not None, "harness: RPM rejects the document", text=text)
    header = oracle.sourceHeader
    spec = load(ctx, text)
    want = {"absent": None, "only false": "9"}.get(f, BASE[tag])
    same(getattr(spec, p), want, "literal value", text=text)
    rpm_value = header[RPMTAG[tag]] if f not in ("absent", "only false") else {"absent": None, "only false": "9"}[f]
    expanded = getattr(spec, "expanded_" + p)
    same(expanded, str(rpm_value) if rpm_value is not None else None, "expanded value", text=text)
    same(str(spec), text, "content after reading")
    others = {q: getattr(spec, q) for q in PROPS if q != p}
    for value in VALUES[tag]:
        spec = load(ctx, text)
        if f == "absent":
            try:
                setattr(spec, p, value)
            except AttributeError:
                same(str(spec), text, "content after assigning a missing tag")
                continue
            raise Violation("assigning a missing tag raised nothing", text=str(spec))
        setattr(spec, p, value)
        old = lines[start + at]
        current = want
        i = old.rindex(current)
        new = list(lines)
        new[start + at] = old[:i] + value + old[i + len(current):]
        same(str(spec), "\n".join(new) + "\n", "content after an assignment", value=value)
        same(getattr(spec, p), value, "literal value after an assignment")
        same({q: getattr(spec, q) for q in PROPS if q != p}, others, "other literal values after an assignment")
        ctx.step()
        ctx.state(str(spec))
        if f == "only false":
            continue
        oracle = Oracle.parse(str(spec), ctx.fresh_dir())
        require(oracle is not None, "harness: RPM rejects the changed document", text=str(spec))
        for q in PROPS:
            t = PROPS[q]
            got = getattr(spec, "expanded_" + q)
            if t in ("Epoch", "URL") and t != tag:
                same(got, None, "expanded value of a missing tag")
                continue
            same(got, str(oracle.sourceHeader[RPMTAG[t]]), "expanded value after an assignment", property=q, value=value)


SPACES = [
    FnSpace("properties", prop_cases, prop_run),
    FnSpace("lookup", lookup_cases, lookup_run),
    FnSpace("prep", prep_cases, prep_run),
    FnSpace("comments", comment_cases, comment_run),
]
