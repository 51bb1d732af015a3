"""C06 -- macro definitions: what they are and what an edit changes."""
import itertools

import rpm

from mc.core import FnSpace, Violation, require, same
from mc.lib import HEADER, Oracle, load
from specfile.macro_definitions import CommentOutStyle, MacroDefinition, MacroDefinitions

DNL, HASH, OTHER = CommentOutStyle.DNL, CommentOutStyle.HASH, CommentOutStyle.OTHER

ASSUMPTIONS = ["a definition that is commented out is a matter of one line"]

UNITS = {
    # name: [line] or dict
    "blank": [""],
    "text": ["Name: x"],
    "comment": ["# a comment"],
    "if": ["%if 0"],
    "endif": ["%endif"],
    "notdef": ["%globals a 1", "%global", "# global z 1", "%dnl# %%global z 1", "%dnlx %global z 1"],
    "simple": dict(lead="", start="%", kw="global", sep=" ", name="a", sep2=" ", body="1", trail="", out=False, style=DNL),
    "spaced": dict(lead="  ", start="%", kw="define", sep="\t", name="b", sep2="  ", body="x  y", trail=" \t", out=False, style=DNL),
    "args": dict(lead="", start="%", kw="define", sep=" ", name="c(o: p)", sep2=" ", body="(%{-o*}) z", trail="", out=False, style=DNL),
    "backslash": dict(lead="", start="%", kw="global", sep=" ", name="a", sep2=" ", body="\\\n%global z 1\\\nend", trail="  ", out=False, style=DNL),
    "braces": dict(lead="", start="%", kw="define", sep=" ", name="d", sep2=" ", body="%{expand: \t\n%if 0\n}", trail="", out=False, style=DNL),
    "glued": dict(lead="", start="%", kw="define", sep=" ", name="h()", sep2="", body="\\\n%global z 1 \\\n", trail="", out=False, style=DNL),
    "shell": dict(lead="", start="%", kw="global", sep=" ", name="i", sep2=" ", body="%(echo  \n%define z 1\n)", trail="", out=False, style=DNL),
    "live": dict(lead="", start="# note %", kw="global", sep=" ", name="j", sep2=" ", body="5", trail=" ", out=False, style=DNL),
    "dnl": dict(lead="", start="%dnl %", kw="global", sep=" ", name="a", sep2=" ", body="2", trail=" ", out=True, style=DNL),
    "hash": dict(lead=" ", start="#", kw="define", sep=" ", name="e", sep2=" ", body="3", trail="", out=True, style=HASH),
    "other": dict(lead="", start="# note %%", kw="global", sep=" ", name="f", sep2=" ", body="4", trail="", out=True, style=OTHER),
}


class D:
    def __init__(self, d, gap):
        self.__dict__.update(d)
        self.gap = list(gap)
        self.pre = {"%": "", "%dnl %": " ", "#": "", "# note %%": "# note %", "# note %": "# note "}[d["start"]]

    def own(self):
        if not self.out:
            start = ("" if self.pre.endswith("%") else self.pre) + "%"
        elif self.style is DNL:
            start = "%dnl" + (" " if "#" in self.pre else "") + self.pre + "%"
        elif self.style is HASH:
            start = self.pre.strip(" ") and "#" or self.pre + "#"
        else:
            start = (self.pre if self.pre.endswith("%") and "#" in self.pre else "# %") + "%"
        sep2 = self.sep2 if self.body.startswith("\\") else self.sep2 or " "
        text = f"{self.lead}{start}{self.kw}{self.sep}{self.name}{sep2}{self.body}{self.trail}"
        return text.split("\n")

    def lines(self):
        return self.gap + self.own()


class Model:
    def __init__(self, units):
        self.defs, buf = [], []
        for u in units:
            d = UNITS[u]
            if isinstance(d, list):
                buf += d
            else:
                self.defs.append(D(d, buf))
                buf = []
        self.rest = buf

    def lines(self):
        return [l for d in self.defs for l in d.lines()] + self.rest

    def gap_at(self, i):
        return self.defs[i].gap if i < len(self.defs) else self.rest

    def delete(self, i):
        gap = self.defs.pop(i).gap
        after = self.gap_at(i)
        after[:] = gap + after


def check(mds, m, what, ctx):
    ctx.step()
    same(mds.get_raw_data(), m.lines(), f"{what}: wrong lines")
    same(
        [(d.name, d.body, d.is_global, d.commented_out) for d in mds],
        [(d.name, d.body, d.kw == "global", d.out) for d in m.defs],
        f"{what}: wrong definitions",
    )
    pos = 0
    for i, d in enumerate(m.defs):
        same(mds[i].get_position(mds), pos + len(d.gap), f"{what}: wrong position")
        same(mds.find(d.name, pos + len(d.gap)), i, f"{what}: find() by position")
        same(str(mds[i]), "\n".join(d.own()), f"{what}: wrong string")
        pos += len(d.lines())
        k = first(mds, m, i)
        same(mds.find(d.name), k, f"{what}: find() by name")
        require(mds.get(d.name) is mds[k] and getattr(mds, d.name) is mds[k], f"{what}: access by name")
        require(d.name in mds, f"{what}: {d.name} not found")
    for name in ("A", "zz", "g"):
        require(name not in mds, f"{what}: {name} found")
        for position in (None, 0):
            try:
                mds.find(name, position)
            except ValueError:
                continue
            raise Violation(f"{what}: find({name!r}, {position}) found something")


def reread(m, what, with_conditions):
    if any(d.out and "\n" in d.body for d in m.defs):
        return
    again = MacroDefinitions.parse(m.lines(), with_conditions=with_conditions)
    same(
        [(d.name, d.body, d.is_global, d.commented_out) for d in again],
        [(d.name, d.body, d.kw == "global", d.out) for d in m.defs],
        f"{what}: the result doesn't read back the same",
    )


def first(mds, m, i):
    hits = [k for k, d in enumerate(m.defs) if d.name == m.defs[i].name]
    return next((k for k in hits if mds[k].valid), hits[0])


def op_body(s, m, i):
    s[i].body = m.defs[i].body = "new %{x}"


def op_body_lines(s, m, i):
    if m.defs[i].out:
        return False
    s[i].body = m.defs[i].body = "%{expand:\n n\n}"


def op_body_attr(s, m, i):
    k = first(s, m, i)
    setattr(s, m.defs[i].name, "by name")
    m.defs[k].body = "by name"


def op_name(s, m, i):
    s[i].name = m.defs[i].name = "renamed"


def op_keyword(s, m, i):
    s[i].is_global = not s[i].is_global
    m.defs[i].kw = "define" if m.defs[i].kw == "global" else "global"


def toggle(style, out):
    def op(s, m, i):
        s[i].comment_out_style = m.defs[i].style = style
        s[i].commented_out = m.defs[i].out = out

    return op


def op_toggle(s, m, i):
    s[i].commented_out = not s[i].commented_out
    m.defs[i].out = not m.defs[i].out


def op_toggle_twice(s, m, i):
    op_toggle(s, m, i)
    op_toggle(s, m, i)


def op_del(s, m, i):
    del s[i]
    m.delete(i)


def op_del_negative(s, m, i):
    del s[i - len(m.defs)]
    m.delete(i)


def op_del_attr(s, m, i):
    k = first(s, m, i)
    delattr(s, m.defs[i].name)
    m.delete(k)


def op_del_reversed(s, m, i):
    gone = sorted(range(len(m.defs))[i::-1])
    del s[i::-1]
    for k in reversed(gone):
        m.delete(k)


def op_del_steps(s, m, i):
    gone = sorted(range(len(m.defs))[: i - 1 if i else None : -2])
    del s[: i - 1 if i else None : -2]
    for k in reversed(gone):
        m.delete(k)


def op_del_slice(s, m, i):
    del s[i:]
    while len(m.defs) > i:
        m.delete(len(m.defs) - 1)


def op_insert(s, m, i):
    s.insert(i, MacroDefinition("n", "1", True, False, DNL, ("", " ", " ", "")))
    m.defs.insert(i, D(dict(UNITS["simple"], name="n"), ()))


def op_append(s, m, i):
    if i:
        return False
    s.append(MacroDefinition("n", "1", False, True, HASH, ("", " ", " ", "")))
    m.defs.append(D(dict(UNITS["hash"], name="n", body="1", lead=""), ()))


OPS = {k[3:]: v for k, v in list(globals().items()) if k.startswith("op_")}
for _style in (DNL, HASH, OTHER):
    for _out in (True, False):
        OPS[f"{_style.name} {_out}"] = toggle(_style, _out)


def apply(s, m, op, i):
    if i >= len(m.defs) and not (op in ("insert", "append") and i == 0):
        return False
    return OPS[op](s, m, i) is not False


def parse(units, wc):
    m = Model(units)
    return MacroDefinitions.parse(m.lines(), with_conditions=wc), m


def cases(tier):
    n = 3 if tier == "quick" else 4
    for k in range(n + 1):
        yield from (list(u) for u in itertools.product(UNITS, repeat=k))
    small = ["blank", "text", "if", "endif", "simple", "backslash", "other"]
    yield from (list(u) for u in itertools.product(small, repeat=n + 1))


def run(case, ctx):
    """every document of up to N units (definitions of every shape and comment-out style, conditions, look-alikes): what is found, and each edit of each definition"""
    wc = len(case) % 2 == 1
    s, m = parse(case, wc)
    check(s, m, "reading", ctx)
    same([d.comment_out_style for d in s if d.commented_out], [d.style for d in m.defs if d.out], "wrong comment-out style")
    for op in OPS:
        for i in range(max(1, len(m.defs))):
            s, m = parse(case, wc)
            if apply(s, m, op, i):
                check(s, m, f"{op} {i}", ctx)
                if len(case) < 3:
                    reread(m, f"{op} {i}", wc)
    ctx.state(tuple(case))


def sequence_cases(tier):
    n = 2 if tier == "quick" else 3
    for k in range(1, n + 1):
        for u in itertools.product([x for x in UNITS if x not in ("notdef", "comment")], repeat=k):
            yield list(u)


def sequence_run(case, ctx):
    """every pair of edits on every short document"""
    steps = [(op, i) for op in OPS for i in range(2)]
    for a, b in itertools.product(steps, repeat=2):
        s, m = parse(case, False)
        if apply(s, m, *a) and apply(s, m, *b):
            check(s, m, f"{a} {b}", ctx)
            ctx.state(tuple(m.lines()))


# --- what RPM makes of it -----------------------------------------------------------------


def rpm_cases(tier):
    defs = [u for u, d in UNITS.items() if isinstance(d, dict)]
    for u in defs:
        for op in [None] + list(OPS):
            for pre in ([], ["comment"], ["if", "endif"]):
                yield {"units": pre + [u], "op": op}
    n = 2 if tier == "quick" else 3
    for k in range(2, n + 1):
        for us in itertools.product(defs, repeat=k):
            for op in [None] + [f"{s.name} {o}" for s in (DNL, HASH, OTHER) for o in (True, False)] + ["del_attr", "body_attr"]:
                yield {"units": list(us), "op": op}


def rpm_run(case, ctx):
    """every definition (pair) after every edit, given to RPM: a definition is in effect exactly if it is reported as not commented out"""
    m = Model(case["units"])
    multi = any("\n" in d.body for d in m.defs) or case["op"] == "body_lines"
    if multi and case["op"] and (case["op"].endswith("True") or case["op"] == "toggle"):
        return  # only the first line gets commented out (known finding, see `specific`)
    m.rest += HEADER + ["%description", "d"]
    spec = load(ctx, "\n".join(m.lines()) + "\n")
    with spec.macro_definitions() as s:
        if case["op"] and not apply(s, m, case["op"], 0):
            return
    same(str(spec), "\n".join(m.lines()) + "\n", "wrong content of the spec file")
    active = {}
    for d in m.defs:
        if not d.out:
            active[d.name.split("(")[0]] = d
    rs = Oracle.parse(str(spec), ctx.fresh_dir())
    require(rs is not None, "the edited spec file is not valid")
    ctx.step()
    for name in "abcdefn":
        defined = rpm.expandMacro("%{?" + name + ":1}") == "1"
        same(defined, name in active, f"%{name} defined according to RPM")
        if defined and name not in "cd":
            body = active[name].body
            if "\n" not in body and "%" not in body:
                same(rpm.expandMacro("%" + name), body, f"value of %{name} according to RPM")
    ctx.state(tuple(m.lines()))


def specific_cases(tier):
    for style in ("DNL", "HASH", "OTHER"):
        yield style


def specific_run(case, ctx):
    """commenting out a definition with a multi-line body"""
    spec = load(ctx, "\n".join(["%global a \\", "foo"] + HEADER + ["%description", "d"]) + "\n")
    with spec.macro_definitions() as mds:
        mds.a.comment_out_style = getattr(CommentOutStyle, case)
        mds.a.commented_out = True
    ctx.step()
    rs = Oracle.parse(str(spec), ctx.fresh_dir())
    require(rs is not None, "the edited spec file is not valid")
    same(rpm.expandMacro("%{?a:1}"), "", "the macro is still defined")


def setup(ctx):
    Oracle.reset()


SPACES = [
    FnSpace("edits", cases, run, setup=setup),
    FnSpace("sequences", sequence_cases, sequence_run, setup=setup),
    FnSpace("rpm", rpm_cases, rpm_run),
    FnSpace("specific", specific_cases, specific_run),
]
