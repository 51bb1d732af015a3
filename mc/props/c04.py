"""C04 -- sections: where they begin, what belongs to them, what an edit changes."""
import getopt
import itertools
import os
import re
import shlex

from mc.core import FnSpace, Violation, require, same
from mc.lib import HEADER, Oracle, load, write
from specfile.options import Options, Token, TokenType
from specfile.sections import Section, Sections

ASSUMPTIONS = [
    "a section header is written literally at the beginning of a line (not produced by a macro expansion or by %%)",
    "only the words RPM 4.18 knows are section names",
]

# (lines, section id or None)
UNITS = {
    "prep": (["%prep"], "prep"),
    "build": (["%Build \t"], "Build"),
    "install": (["%install"], "install"),
    "sub": (["%package -n Foo"], "package -n Foo"),
    "desc": (["%description  -l cs  devel "], "description  -l cs  devel"),
    "files": (["%files -f a.list"], "files -f a.list"),
    "post": (["%post -p <lua>"], "post -p <lua>"),
    "text": (["text"], None),
    "empty": ([""], None),
    "indented": ([" %prep"], None),
    "longer": (["%prepare", "%build_x", "%checkout -n"], None),
    "comment": (["# %build", "#%check"], None),
    "macro": (["%global g \\", "%build \\", "%check"], None),
    "glued": (["%define h()\\", "%prep \\", "%check"], None),
    "braces": (["%define e() %{expand:", "%prep", "}"], None),
    "conditional": (["%{?undefined_macro:%build}", "%if 1", "%endif"], None),
}


class S:
    def __init__(self, id, header, body):
        self.id, self.header, self.body = id, header, body

    def lines(self):
        return self.header + self.body


class Model:
    def __init__(self, units):
        self.sections = [S("package", [], [])]
        for u in units:
            lines, id = UNITS[u]
            if id is None:
                self.sections[-1].body += lines
            else:
                self.sections.append(S(id, list(lines), []))

    def lines(self):
        return [l for s in self.sections for l in s.lines()]


def norm(id):
    name, _, rest = id.partition(" ")
    return name.lower() + _ + rest


def check(sections, m, what, ctx):
    ctx.step()
    same([s.id for s in sections], [s.id for s in m.sections], f"{what}: wrong sections")
    same([list(s) for s in sections], [s.body for s in m.sections], f"{what}: wrong content of sections")
    same(sections.get_raw_data(), m.lines(), f"{what}: wrong lines")
    same(str(sections), "".join(l + "\n" for l in m.lines()), f"{what}: wrong text")
    for i, s in enumerate(m.sections):
        k = next(j for j, t in enumerate(m.sections) if norm(t.id) == norm(s.id))
        name, _, rest = s.id.partition(" ")
        for id in (s.id, name.upper() + _ + rest, name.capitalize() + _ + rest):
            require(id in sections, f"{what}: {id} not found")
            same(sections.find(id), k, f"{what}: find({id!r})")
            require(sections.get(id) is sections[k], f"{what}: get({id!r})")
            require(getattr(sections, id) is sections[k], f"{what}: access to {id!r} as attribute")
    for id in ("clean", "package -n foo", "description -l cs", "PREP -n x"):
        if not any(norm(s.id) == norm(id) for s in m.sections):
            require(id not in sections, f"{what}: {id!r} found")
            try:
                sections.find(id)
            except ValueError:
                pass
            else:
                raise Violation(f"{what}: find({id!r}) found something")


NAMES = """package prep build install check clean preun postun pretrans posttrans preuntrans postuntrans pre post files
changelog description triggerpostun triggerprein triggerun triggerin trigger verifyscript generate_buildrequires sepolicy
filetriggerin filetrigger filetriggerun filetriggerpostun transfiletriggerin transfiletrigger transfiletriggerun
transfiletriggerpostun sourcelist patchlist conf sourcelists""".split()


def absent(sections, m):
    """a section is found only under its full id"""
    there = {norm(s.id) for s in m.sections}
    for name in NAMES:
        for id in (name, f"{name} foo", f"{name} -n foo", f"{name} -f a.list", f"{name}  -n Foo"):
            if norm(id) in there:
                continue
            require(id not in sections, f"{id!r} found")
            require(not hasattr(sections, id), f"{id!r} found as attribute")
            for call in (sections.find, sections.get):
                try:
                    call(id)
                except ValueError:
                    continue
                raise Violation(f"{call.__name__}({id!r}) found something")


def parse(units):
    m = Model(units)
    return Sections.parse(m.lines()), m


def op_set(s, m, i):
    k = next(j for j, t in enumerate(m.sections) if norm(t.id) == norm(m.sections[i].id))
    setattr(s, m.sections[i].id, ["new", "", "%content"])
    m.sections[k].body = ["new", "", "%content"]


def op_set_section(s, m, i):
    k = next(j for j, t in enumerate(m.sections) if norm(t.id) == norm(m.sections[i].id))
    if k == 0:
        return False
    setattr(s, m.sections[i].id, Section("check", data=["c", ""]))
    m.sections[k] = S("check", ["%check"], ["c", ""])


def op_append(s, m, i):
    s[i].append("x")
    m.sections[i].body.append("x")


def op_insert_line(s, m, i):
    s[i].insert(0, "first")
    m.sections[i].body.insert(0, "first")


def op_clear(s, m, i):
    s[i][:] = []
    m.sections[i].body = []


def op_del_line(s, m, i):
    if not m.sections[i].body:
        return False
    del s[i][-1]
    del m.sections[i].body[-1]


def op_set_line(s, m, i):
    if not m.sections[i].body:
        return False
    s[i][0] = m.sections[i].body[0] = "replaced"


def op_del(s, m, i):
    if i == 0:
        return False
    del s[i]
    del m.sections[i]


def op_del_attr(s, m, i):
    k = next(j for j, t in enumerate(m.sections) if norm(t.id) == norm(m.sections[i].id))
    if k == 0:
        return False
    delattr(s, m.sections[i].id)
    del m.sections[k]


def op_add(s, m, i):
    s.insert(i + 1, Section("check", data=["c"]))
    m.sections.insert(i + 1, S("check", ["%check"], ["c"]))


def op_add_options(s, m, i):
    opts = Options([Token(TokenType.DEFAULT, "-n"), Token(TokenType.WHITESPACE, " "), Token(TokenType.DEFAULT, "Bar")], "n:")
    s.append(Section("package", opts, data=["Summary: b"]))
    m.sections.append(S("package -n Bar", ["%package -n Bar"], ["Summary: b"]))


def op_swap(s, m, i):
    if i == 0 or i + 1 >= len(m.sections):
        return False
    s[i], s[i + 1] = s[i + 1], s[i]
    m.sections[i], m.sections[i + 1] = m.sections[i + 1], m.sections[i]


def op_rename(s, m, i):
    if m.sections[i].id not in ("prep", "install"):
        return False
    s[i].name = m.sections[i].id = "check"
    m.sections[i].header = ["%check"]


def op_option(s, m, i):
    if not m.sections[i].id.startswith("package -n"):
        return False
    s[i].options.n = "Baz"
    m.sections[i].id = "package -n Baz"
    m.sections[i].header = ["%package -n Baz"]


def op_copy(s, m, i):
    j = len(m.sections) - 1
    s[i][:] = s[j]
    m.sections[i].body = list(m.sections[j].body)


OPS = {k[3:]: v for k, v in list(globals().items()) if k.startswith("op_")}


def cases(tier):
    n = 3 if tier == "quick" else 4
    for k in range(n + 1):
        yield from (list(u) for u in itertools.product(UNITS, repeat=k))
    small = ["prep", "sub", "text", "macro", "braces", "longer"]
    yield from (list(u) for u in itertools.product(small, repeat=n + 1))


def run(case, ctx):
    """every document of up to N units (section headers with options, case and white space variants; look-alikes in macro bodies, comments, escapes): split and every edit of every section"""
    s, m = parse(case)
    check(s, m, "reading", ctx)
    if len(case) < 3:
        absent(s, m)
    for op, f in OPS.items():
        for i in range(len(m.sections)):
            s, m = parse(case)
            if f(s, m, i) is not False:
                check(s, m, f"{op} {i}", ctx)
    ctx.state(tuple(case))


# --- agreement with RPM -------------------------------------------------------------------

RPM_UNITS = {
    "prep": ["%prep"], "build": ["%build "], "install": ["%Install"], "check": ["%check\t"],
    "text": ["echo {}"], "macro": ["%define m{}() \\", "%build \\", "echo {}"], "glued": ["%global m{}\\", "%build \\", "echo {}"], "braces": ["%global b{} %{expand:", "%check", "}"],
    "indented": [" %build", "echo {}"], "comment": ["#%prep", "# %%build", "echo {}"], "undefined": ["%{?undefinedm:%build}", "echo {}"],
    "if": ["%if 1", "echo {}", "%endif"], "longer": ["%{!?checkx:%nil}", "%buildx", "echo {}"],
}
PARTS = ("prep", "build", "install", "check")


def rpm_cases(tier):
    n = 4 if tier == "quick" else 5
    for k in range(1, n + 1):
        for u in itertools.product(RPM_UNITS, repeat=k):
            if u[0] in PARTS and all(u.count(p) < 2 for p in PARTS):
                yield list(u)


def rpm_run(case, ctx):
    """every spec file of up to N script units: each marker line is in the section in which RPM puts it"""
    lines = HEADER + ["%description", "d"]
    for i, u in enumerate(case):
        lines += [l.replace("{}", f"mark{i}") for l in RPM_UNITS[u]]
    spec = load(ctx, "\n".join(lines) + "\n")
    rs = Oracle.parse("\n".join(lines) + "\n", ctx.fresh_dir())
    require(rs is not None, "harness: not a valid spec file")
    ours, theirs = {}, {}
    with spec.sections() as sections:
        for part in PARTS:
            body = getattr(rs, part) or ""
            theirs[part] = [i for i in range(len(case)) if f"echo mark{i}" in body]
            if part in sections:
                text = "\n".join(getattr(sections, part))
                ours[part] = [
                    i for i in range(len(case)) if f"echo mark{i}" in text and case[i] not in ("macro", "glued", "braces")
                ]
            else:
                ours[part] = []
    ctx.step()
    same(ours, theirs, "sections are not split as RPM does it")
    ctx.state(tuple(case))


# --- content on the header line --------------------------------------------------------------


NL_BODIES = [[], ["x"], ["%{nl}"], ["%{nl}", "x"], ["x", "%{nl}"], ["", "y"]]


def header_cases(tier):
    for head in ("%description %{nl}", "%description -l cs  %{nl} ", "%changelog\t%{nl}", "%build %{?nl}", "%build %{nl}x"):
        for rest in ([], ["r"]):
            for i in range(len(NL_BODIES)):
                for how in ("attr", "slice", "insert", "append"):
                    yield [head, rest, i, how]


def header_run(case, ctx):
    """content that begins on the header line (a macro expanding to a newline) stays there until it is replaced; new content never ends up on the header line unless it is such a macro"""
    head, rest, i, how = case
    lines = ["Name: x", head] + rest + ["%install", "i"]
    s = Sections.parse(list(lines))
    id = head.split("%{")[0].strip()
    token = head[head.index("%{") :]
    sec = s[1]
    ctx.step()
    same(sec.id, id[1:], "wrong section id")
    same(list(sec), [token] + rest, "wrong content")
    same(s.get_raw_data(), lines, "reading changed the lines")
    new = list(NL_BODIES[i])
    if how == "attr":
        setattr(s, sec.id, new)
        body = new
    elif how == "slice":
        sec[:] = new
        body = new
    elif how == "insert":
        sec[0:0] = new
        body = new + [token] + rest
    else:
        sec.extend(new)
        body = [token] + rest + new
    ctx.step()
    glue = head[len(id) : head.index("%{")]
    if body and body[0].startswith("%{"):
        expected = [id + glue + body[0]] + body[1:]
    else:
        expected = [id] + body
    out = s.get_raw_data()
    same([out[0]] + [l.rstrip() for l in out[1:]], ["Name: x"] + [l.rstrip() for l in expected] + ["%install", "i"], "wrong lines")
    ctx.state(tuple(case[:1]), tuple(out))


# --- sections of the parsed spec file ---------------------------------------------------------

PARSED_UNITS = {
    "prep": ["%prep"], "build": ["%build "], "install": ["%Install"], "sub": ["%package -n  sub{}", "Summary: s"], "desc": ["%description -n sub{}", "d"],
    "text": ["echo {}"], "expanded": ["%{name}-{} %%{version} %(echo x)"], "nothing": ["%{?undefinedm}", ""], "many": ["%{expand:a", "b}"],
    "feed": ["a\fb\vc"], "separator": ["a\u2028b\u0085c\x1cd"], "if": ["%if 0", "%check", "no", "%else", "yes", "%endif"],
    "off": ["%if 0", "%clean", "%endif"], "define": ["%define m{}() \\", "%build \\", "echo {}"], "indented": [" %build"], "bytes": ["\udcff"],
}
HEADS = ("prep", "build", "install", "sub")


def parsed_cases(tier):
    n = 3 if tier == "quick" else 4
    for k in range(1, n + 1):
        for u in itertools.product(PARSED_UNITS, repeat=k):
            if all(u.count(p) < 2 for p in HEADS) and u.count("desc") == (u.count("sub") and u[0] != "desc"):
                yield list(u)


def parsed_run(case, ctx):
    """every small spec file: parsed_sections is the text RPM got by expanding macros and resolving conditions, split at newlines into sections"""
    sub = case.index("sub") if "sub" in case else 0
    lines = HEADER + ["%description", "d"]
    for i, u in enumerate(case):
        lines += [l.replace("{}", str(sub if u in ("sub", "desc") else i)) for l in PARSED_UNITS[u]]
    text = "\n".join(lines) + "\n"
    rs = Oracle.parse(text, ctx.fresh_dir())
    if rs is None:
        ctx.state("refused")
        return
    expected = [["package", []]]
    for line in rs.parsed.split("\n")[: -1 if rs.parsed.endswith("\n") else None]:
        if line.startswith("%") and line[1:].split() and line[1:].split()[0].lower() in NAMES:
            expected.append([line[1:].strip(), []])
        else:
            expected[-1][1].append(line)
    spec = load(ctx, text)
    ctx.step()
    same([[s.id, list(s)] for s in spec.parsed_sections], expected, "parsed_sections is not what RPM parsed")
    with spec.sections() as sections:
        sections[0].append("Url: u")
    ctx.step()
    expected[0][1].append("Url: u")
    same([[s.id, list(s)] for s in spec.parsed_sections], expected, "parsed_sections is not what RPM parsed after an edit")
    same(str(spec), "\n".join(HEADER + ["Url: u"] + lines[len(HEADER) :]) + "\n", "parsed_sections changed the spec file")
    ctx.state(tuple(case))


# --- options of section headers --------------------------------------------------------------

OPTION_HEADS = [
    "%files", "%files ", "%Files devel", "%files -f a.list", "%files\t-n  x-y -f a.list \t", "%package -n foo", "%package  devel",
    "%description", "%description -l cs devel", "%post", "%post -p /bin/sh", "%preun devel -p <lua>", "%triggerin -- other", "%check",
    # sections created from scratch
    "files", "package", "post",
]
OPTION_NAMES = {"files": "n:f:", "package": "n:", "description": "n:l:", "post": "n:f:p:P:eq", "preun": "n:f:p:P:eq", "triggerin": "n:f:p:P:eq", "check": ""}


def option_ops(name):
    for o in re.findall("[a-zA-Z]", OPTION_NAMES[name]):
        if o + ":" in OPTION_NAMES[name]:
            if o in "nlf":
                yield ["set", o, "new"]
                yield ["set", o, "new name"]
        elif o == "e":
            yield ["set", o, True]
        if o in "nlfe":
            yield ["del", o]
    yield ["append", "sub"]
    yield ["append", 5]
    yield ["insert", 0, "sub package"]
    yield ["assign", 0, "other"]
    yield ["delete", 0]
    yield ["replace", ["k"]]
    yield ["replace", []]


def option_cases(tier):
    for head in OPTION_HEADS:
        ops = list(option_ops(head.lstrip("%").split()[0].lower()))
        for k in range(1, 3 if tier == "quick" else 4):
            for t in itertools.product(ops, repeat=k):
                yield [head, list(t)]


def option_words(name, words):
    """Options and positional arguments by getopt."""
    opts, args = getopt.gnu_getopt([w for w in words if w != "--"], OPTION_NAMES[name])
    number = lambda v: int(v) if v.isdigit() else v
    return {o[1:]: number(v) if o[1] + ":" in OPTION_NAMES[name] else True for o, v in opts}, [number(a) for a in args]


def option_run(case, ctx):
    """every header (also of new sections) under every sequence of up to N edits of its options and positional arguments: getopt reads exactly the requested options from a header line of the same section, all other lines stay"""
    head, ops = case
    if head.startswith("%"):
        s = Sections.parse(["Name: x", head, "body", "%install", "i"])
        sec = s[1]
    else:
        s = Sections.parse(["Name: x", "%install", "i"])
        sec = Section(head, data=["body"])
        s.insert(1, sec)
    name = head.lstrip("%").split()[0]
    opts, pos = option_words(name.lower(), shlex.split(head.lstrip("%"))[1:])
    for op in ops:
        if op[0] == "set":
            setattr(sec.options, op[1], op[2])
            opts[op[1]] = op[2]
        elif op[0] == "del":
            delattr(sec.options, op[1])
            opts.pop(op[1], None)
        elif op[0] == "append":
            sec.options.positional.append(op[1])
            pos.append(op[1])
        elif op[0] == "insert":
            sec.options.positional.insert(op[1], op[2])
            pos.insert(op[1], op[2])
        elif op[0] == "assign" and pos:
            sec.options.positional[op[1]] = op[2]
            pos[op[1]] = op[2]
        elif op[0] == "delete" and pos:
            del sec.options.positional[op[1]]
            del pos[op[1]]
        elif op[0] == "replace":
            sec.options.positional = op[1]
            pos = list(op[1])
        ctx.step()
        if name == "package" and not opts and not pos:
            # not a section, RPM requires a name
            ctx.state("no name")
            return
        out = s.get_raw_data()
        same(out[:1] + out[2:], ["Name: x", "body", "%install", "i"], "other lines changed", lines=out)
        words = shlex.split(out[1])
        same(words[0], f"%{name}", "not the same section", header=out[1])
        same(option_words(name.lower(), words[1:]), (opts, pos), "wrong options on the header line", header=out[1])
        require(sec.id in s and s.find(sec.id) == 1 and s.get(sec.id) is sec, "the section is not found by its id", id=sec.id)
        same(out[1].rstrip(), f"%{sec.id}".rstrip(), "the id is not what is on the header line")
        same([t.id for t in Sections.parse(list(out))], [t.id for t in s], "the lines are not the same sections", lines=out)
        same(str(s), "".join(f"{l}\n" for l in out), "text of the sections")
    ctx.state(head, out[1])


def setup(ctx):
    Oracle.reset([("nl", "\nfoo")])


SPACES = [
    FnSpace("edits", cases, run, setup=setup),
    FnSpace("rpm", rpm_cases, rpm_run),
    FnSpace("parsed", parsed_cases, parsed_run),
    FnSpace("header", header_cases, header_run, setup=setup),
    FnSpace("options", option_cases, option_run),
]
