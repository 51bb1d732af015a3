"""C03 -- edits of tags change exactly what was asked for."""
import copy
import itertools

from mc.core import FnSpace, Violation, require, same
from mc.lib import Oracle, load
from specfile.sections import Section
from specfile.tags import Comment, Comments, Tag, Tags

ASSUMPTIONS = [
    "comments of a tag are the consecutive comment lines directly above it",
    "deleting a tag joins the lines around it; empty lines at the joint are compressed to one",
]

# a unit is (kind, lines, name, prefix up to the value, value, suffix)
UNITS = {
    "blank": ("line", [""]),
    "comment": ("comment", ["# c1"]),
    "comment2": ("comment", ["  #c2 "]),
    "text": ("line", ["%global v 1"]),
    "space": ("line", [" "]),
    "if": ("line", ["%if 0"]),
    "endif": ("line", ["%endif"]),
    "endif2": ("line", ["  %endif \t# x"]),
    "tag": ("tag", "Suggests", "Suggests: ", "a", ""),
    "spaced": ("tag", "Requires(post)", "Requires(post) :\t", "b  c", " \t"),
    "conditional": ("tag", "Recommends", "%{!?x:Recommends:", "r%{?y}", "} "),
    "multiline": ("tag", "SUGGESTS", "SUGGESTS:  ", '%{lua: s = [[  \nSuggests: x\n]] print("z")}', "  "),
    "shell": ("tag", "Conflicts", "Conflicts:", "%(echo x;\n\ttrue) >= 1", " "),
    "source": ("tag", "source0", "source0: ", "http://x/#/%{name}", ""),
}
COMMENT_TEXT = {"# c1": ("# ", "c1"), "  #c2 ": ("  #", "c2 ")}


class T:
    def __init__(self, name, head, value, tail, gap=(), comments=()):
        self.name, self.head, self.value, self.tail = name, head, value, tail
        self.gap, self.comments = list(gap), list(comments)  # comments: [prefix, text]

    def own(self):
        return (self.head + self.value + self.tail).split("\n")

    def lines(self):
        return self.gap + [p + t for p, t in self.comments] + self.own()


class Model:
    def __init__(self, units):
        self.tags, self.rest = [], []
        buf = []
        for u in units:
            d = UNITS[u]
            if d[0] != "tag":
                buf.append((d[0], d[1][0]))
                continue
            comments = []
            while buf and buf[-1][0] == "comment":
                comments.insert(0, list(COMMENT_TEXT[buf.pop()[1]]))
            self.tags.append(T(*d[1:], [l for _, l in buf], comments))
            buf = []
        self.rest = [l for _, l in buf]

    def lines(self):
        return [l for t in self.tags for l in t.lines()] + self.rest

    def position(self, i):
        return sum(len(t.lines()) for t in self.tags[:i]) + len(self.tags[i].gap) + len(self.tags[i].comments)

    def gap_at(self, i):
        return self.tags[i].gap if i < len(self.tags) else self.rest

    def delete(self, i):
        before = self.tags.pop(i).gap
        after = self.gap_at(i)
        joint = bool(before and before[-1] == "" or after and after[0] == "")
        while before and before[-1] == "":
            before = before[:-1]
        tail = list(after)
        while tail and tail[0] == "":
            tail.pop(0)
        after[:] = before + [""] * joint + tail

    def insert(self, i, t):
        n = len(self.tags)
        i = min(i, n) if i >= 0 else max(i + n, 0)
        gap = self.gap_at(i)
        ends = [k for k, l in enumerate(gap) if l.strip().startswith("%endif")]
        if ends:
            t.gap = gap[: ends[0] + 1]
            del gap[: ends[0] + 1]
        self.tags.insert(i, t)


def check(tags, m, what, ctx, reread=True):
    ctx.step()
    same(tags.get_raw_section_data(), m.lines(), f"{what}: wrong lines")
    same(
        [(t.name, t.value, [(c.prefix, c.text) for c in t.comments]) for t in tags],
        [(t.name, t.value, [tuple(c) for c in t.comments]) for t in m.tags],
        f"{what}: wrong tags",
    )
    for i, t in enumerate(tags):
        same(t.get_position(tags), m.position(i), f"{what}: wrong position of tag {i}")
        same(tags.find(t.name, m.position(i)), i, f"{what}: find() by position")
        require(tags.get(t.name.upper(), m.position(i)) is t, f"{what}: get() by position")
    if not reread:
        return
    again = Tags.parse(Section("package", data=m.lines()))
    same(
        [(t.name, t.value) for t in again],
        [(t.name, t.value) for t in m.tags],
        f"{what}: the result doesn't read back the same",
    )


def first(tags, m, i):
    """index of the tag a lookup by name must give: the first valid one or the first one"""
    name = m.tags[i].name.lower()
    hits = [k for k, t in enumerate(m.tags) if t.name.lower() == name]
    return next((k for k in hits if tags[k].valid), hits[0])


# each operation: (name, needs index) -> applies to both; returns False if not applicable
def op_value(tags, m, i):
    tags[i].value = m.tags[i].value = "new %{v}"


def op_value_multiline(tags, m, i):
    if m.tags[i].head.startswith("%"):
        return False  # a conditional expansion is a matter of one line
    tags[i].value = m.tags[i].value = "%{expand:\n  z\n}"


def op_attr(tags, m, i):
    k = first(tags, m, i)
    setattr(tags, m.tags[i].name.lower(), "by attribute")
    m.tags[k].value = "by attribute"


def op_attr_value(tags, m, i):
    k = first(tags, m, i)
    tag = getattr(tags, m.tags[i].name.upper())
    require(tag is tags[k], "lookup by name gives another tag")
    tag.value = m.tags[k].value = "v2"


def op_rename(tags, m, i):
    old = m.tags[i]
    tags[i].name = "Provides"
    old.head = old.head.replace(old.name, "Provides")
    old.name = "Provides"


def op_comment_append(tags, m, i):
    tags[i].comments.append("n e w")
    m.tags[i].comments.append(["# ", "n e w"])


def op_comment_insert(tags, m, i):
    tags[i].comments.insert(0, Comment("first", " #"))
    m.tags[i].comments.insert(0, [" #", "first"])


def op_comment_extend(tags, m, i):
    tags[i].comments.extend(["x", "y"])
    m.tags[i].comments += [["# ", "x"], ["# ", "y"]]


def op_comment_clear(tags, m, i):
    tags[i].comments.clear()
    m.tags[i].comments = []


def op_comment_set(tags, m, i):
    if not m.tags[i].comments:
        return False
    tags[i].comments[-1] = "changed"
    m.tags[i].comments[-1][1] = "changed"


def op_comment_text(tags, m, i):
    if not m.tags[i].comments:
        return False
    require(m.tags[i].comments[0][1] in tags[i].comments, "`in` doesn't find a comment")
    k = tags[i].comments.index(m.tags[i].comments[0][1])
    same(k, 0, "index() of a comment")
    tags[i].comments[0].text = "changed too"
    m.tags[i].comments[0][1] = "changed too"


def op_comment_del(tags, m, i):
    if not m.tags[i].comments:
        return False
    del tags[i].comments[0]
    del m.tags[i].comments[0]


def op_del(tags, m, i):
    del tags[i]
    m.delete(i)


def op_del_negative(tags, m, i):
    del tags[i - len(m.tags)]
    m.delete(i)


def op_del_attr(tags, m, i):
    k = first(tags, m, i)
    delattr(tags, m.tags[i].name.lower())
    m.delete(k)


def op_del_reversed(tags, m, i):
    gone = sorted(range(len(m.tags))[i::-1])
    del tags[i::-1]
    for k in reversed(gone):
        m.delete(k)


def op_del_steps(tags, m, i):
    gone = sorted(range(len(m.tags))[: i - 1 if i else None : -2])
    del tags[: i - 1 if i else None : -2]
    for k in reversed(gone):
        m.delete(k)


def op_del_slice(tags, m, i):
    del tags[i:]
    while len(m.tags) > i:
        m.delete(len(m.tags) - 1)


def new():
    return Tag("Epoch", "1", ": ", Comments([Comment("e")])), T("Epoch", "Epoch: ", "1", "", (), [["# ", "e"]])


def op_insert(tags, m, i):
    a, b = new()
    tags.insert(i, a)
    m.insert(i, b)


def op_insert_end(tags, m, i):
    a, b = new()
    tags.insert(len(m.tags) + i, a)
    m.insert(len(m.tags) + i, b)


def op_insert_negative(tags, m, i):
    a, b = new()
    tags.insert(-1 - i, a)
    m.insert(-1 - i, b)


def op_insert_very_negative(tags, m, i):
    a, b = new()
    tags.insert(-9, a)
    m.insert(-9, b)


OPS = {k[3:]: v for k, v in list(globals().items()) if k.startswith("op_")}
INDEXLESS = {"insert_end", "insert_negative", "insert_very_negative"}


def apply(tags, m, op, i):
    if i >= len(m.tags) and op not in INDEXLESS and not (op == "insert" and i == 0):
        return False
    if op == "insert_very_negative" and i:
        return False
    return OPS[op](tags, m, i) is not False


def parse(units):
    m = Model(units)
    return Tags.parse(Section("package", data=m.lines())), m


SMALL = ["blank", "comment", "text", "if", "endif", "tag"]


def single_cases(tier):
    n = 3 if tier == "quick" else 4
    for k in range(n + 1):
        for units in itertools.product(UNITS, repeat=k):
            yield list(units)
    for units in itertools.product(SMALL, repeat=n + 1):
        yield list(units)


def single_run(case, ctx):
    """every preamble of up to N units (tags of all shapes, comments, blank lines, conditions): parsed structure, and each edit of each tag"""
    tags, m = parse(case)
    check(tags, m, "reading", ctx)
    for op in OPS:
        for i in range(max(len(m.tags), 1)):
            tags, m = parse(case)
            if apply(tags, m, op, i):
                check(tags, m, f"{op} {i}", ctx, len(case) < 3)
    ctx.state(tuple(case))


PAIR_UNITS = ["blank", "comment", "text", "if", "endif", "tag", "multiline", "spaced"]
PAIR_OPS = ["value", "attr", "comment_insert", "comment_del", "del", "del_attr", "insert", "insert_end", "insert_negative"]


def sequence_cases(tier):
    n = 2 if tier == "quick" else 3
    for k in range(n + 1):
        for units in itertools.product(PAIR_UNITS, repeat=k):
            yield {"units": list(units), "depth": 2}
    for units in itertools.product(SMALL, repeat=n + 1):
        yield {"units": list(units), "depth": 2}
    if tier != "quick":
        for k in range(3):
            for units in itertools.product(PAIR_UNITS, repeat=k):
                yield {"units": list(units), "depth": 3}


def sequence_run(case, ctx):
    """every sequence of edits up to a depth on every short preamble"""
    steps = [(op, i) for op in PAIR_OPS for i in range(2)]
    for seq in itertools.product(steps, repeat=case["depth"]):
        tags, m = parse(case["units"])
        for op, i in seq:
            if not apply(tags, m, op, i):
                break
        else:
            check(tags, m, f"{seq}", ctx, False)
            ctx.state(tuple(m.lines()))


# --- through Specfile --------------------------------------------------------------------


def through_cases(tier):
    n = 2 if tier == "quick" else 3
    for section in ("package", "package -n foo"):
        for k in range(n + 1):
            for units in itertools.product(UNITS, repeat=k):
                if units.count("if") != units.count("endif") + units.count("endif2") or units[:1] in (("endif",), ("endif2",)) or units.count("source") > 1:
                    continue
                for op in OPS:
                    yield {"section": section, "units": list(units), "op": op}


def through_run(case, ctx):
    """the same edits through Specfile.tags() of the preamble or of a subpackage: the rest of the spec file is untouched"""
    m = Model(case["units"])
    pre = ["Name: test", "Version: 1", "Release: 1", "Summary: s", "License: l", ""]
    sub = ["%package -n foo ", "Summary: s"]
    post = ["%description", "Name: not a tag", "", "%description -n foo", "x", ""]
    if case["section"] == "package":
        before, after = [], pre + sub + post
    else:
        before, after = pre + sub[:1], sub[1:] + post
    # the section continues after the generated lines
    spec = load(ctx, "\n".join(before + m.lines() + after) + "\n")
    own = [l for l in after[: after.index("%package -n foo " if case["section"] == "package" else "%description")]]
    with spec.tags(case["section"]) as tags:
        n = len(m.tags)
        # what follows belongs to the next tag (or to the remainder)
        head, rest = m.rest, own
        comments = []
        while head and head[-1].lstrip().startswith("#"):
            comments.insert(0, list(COMMENT_TEXT[head.pop()]))
        for j, l in enumerate(own):
            if l == "":
                break
            name, _, value = l.partition(": ")
            m.tags.append(T(name, name + ": ", value, "", head if j == 0 else (), comments if j == 0 else ()))
        m.rest = [l for l in own if l == ""]
        if not apply(tags, m, case["op"], 0):
            return
        ctx.step()
        same(tags.get_raw_section_data(), m.lines(), "wrong lines")
    same(str(spec), "\n".join(before + m.lines() + after[len(own):]) + "\n", "the spec file is not as expected")
    ctx.state(str(spec))


def setup(ctx):
    Oracle.reset()


SPACES = [
    FnSpace("edits", single_cases, single_run, setup=setup),
    FnSpace("sequences", sequence_cases, sequence_run, setup=setup),
    FnSpace("specs", through_cases, through_run),
]
