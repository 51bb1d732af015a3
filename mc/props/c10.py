"""C10 -- %prep macros: found where they are, edited in place, numbered as RPM numbers them."""
import itertools
import re

from mc.core import FnSpace, Violation, require, same
from mc.lib import HEADER, TAIL, Oracle, load
from specfile.prep import AutopatchMacro, AutosetupMacro, PatchMacro, Prep, SetupMacro
from specfile.sections import Section

ASSUMPTIONS = [
    "RPM 4.18.2 (the installed bindings) decides which patches %prep applies",
    "patch numbers are literal, macros are not mentioned in comments",
]

# text -> (class, name, number, {option: value}, positional arguments)
MACROS = {
    "%setup": (SetupMacro, "%setup", None, {"n": "%{name}-%{version}", "q": False, "a": None}, []),
    "%setup -q -n %{name} -a1": (SetupMacro, "%setup", None, {"n": "%{name}", "q": True, "a": 1, "T": False}, []),
    "  %autosetup\t-p1 -S git": (AutosetupMacro, "%autosetup", None, {"p": 1, "S": "git", "n": "%{name}-%{version}", "N": False}, []),
    "%autosetup -N ": (AutosetupMacro, "%autosetup", None, {"N": True, "S": "patch", "p": None}, []),
    "%autopatch -p1 -m 2 -M4": (AutopatchMacro, "%autopatch", None, {"p": 1, "m": 2, "M": 4, "v": False}, []),
    "%patch1 -p1": (PatchMacro, "%patch1", 1, {"p": 1, "P": None, "R": False}, []),
    "%patch0": (PatchMacro, "%patch0", 0, {"p": None}, []),
    "%patch": (PatchMacro, "%patch", 0, {"P": None}, []),
    "%patch -p1 -b .bak": (PatchMacro, "%patch", 0, {"p": 1, "b": ".bak"}, []),
    "%patch -P 2 -p1": (PatchMacro, "%patch", 2, {"P": 2, "p": 1}, []),
    " %patch -P5": (PatchMacro, "%patch", 5, {"P": 5}, []),
    "%patch -P 0": (PatchMacro, "%patch", 0, {"P": 0}, []),
    "%patch 3 -R": (PatchMacro, "%patch", 3, {"R": True, "P": None}, [3]),
    "%patch -p2 -b .x 7": (PatchMacro, "%patch", 7, {"p": 2, "b": ".x"}, [7]),
    "%patch012": (PatchMacro, "%patch012", 12, {}, []),
    "%{?patches_on:%patch4 -p1}": (PatchMacro, "%patch4", 4, {"p": 1}, []),
    "%{!?nope:%patch -P6 -E}": (PatchMacro, "%patch", 6, {"P": 6, "E": True}, []),
    "cd x && %patch9 -p0": (PatchMacro, "%patch9", 9, {"p": 0}, []),
    "%patch10 -p1 -d 'a b'": (PatchMacro, "%patch10", 10, {"p": 1, "d": "a b"}, []),
}
INERT = ["", "cd x", "# comment", "%patches", "%setuptools -q", "%%patch1 -p1", "%{patch1}", "%patch1x -p1", "%if 1", "%endif", "  ", "%autosetupx", "patch1", "%%%%setup -q"]

ALL = list(MACROS) + INERT
FEW = ["%setup", "%patch1 -p1", "%patch -P 2 -p1", "%patch 3 -R", "%patch", "%{!?nope:%patch -P6 -E}", "cd x", ""]
NUMBERED = [m for m in MACROS if MACROS[m][0] is PatchMacro]


def raw(prep):
    return prep.get_raw_section_data()


def parse(lines):
    return Prep.parse(Section("prep", data=list(lines)))


def sequences(tier):
    for k in range(0, 4 if tier == "quick" else 4):
        yield from itertools.product(ALL, repeat=k)
    for k in range(4, 6 if tier == "quick" else 7):
        yield from itertools.product(FEW, repeat=k)


# --- reading ---------------------------------------------------------------------------


def check(prep, lines, label):
    want = [MACROS[l] for l in lines if l in MACROS]
    same([type(m).__name__ for m in prep.macros], [w[0].__name__ for w in want], f"{label}: kinds of macros", lines=lines)
    same([m.name for m in prep.macros], [w[1] for w in want], f"{label}: names", lines=lines)
    for m, w in zip(prep.macros, want):
        if w[2] is not None:
            same(m.number, w[2], f"{label}: number of {w[1]}", lines=lines)
        for k, v in w[3].items():
            same(getattr(m.options, k), v, f"{label}: option -{k} of {w[1]}", lines=lines)
        same(list(m.options.positional), w[4], f"{label}: positional arguments of {w[1]}", lines=lines)
    names = [w[1] for w in want]
    for name in ("%setup", "%autosetup", "%autopatch", "%patch0", "%patch1", "%patch4", "%patch11", "%patch012"):
        same(name in prep, name in names, f"{label}: membership of {name}", lines=lines)
    same("%patch" in prep, any(n.startswith("%patch") for n in names), f"{label}: membership of %patch")
    for klass in (SetupMacro, PatchMacro, AutosetupMacro, AutopatchMacro):
        same(klass in prep, any(w[0] is klass for w in want), f"{label}: membership of {klass.__name__}")
    for name in ("setup", "autosetup", "autopatch", "patch", "patch0", "patch1", "patch11"):
        try:
            got = getattr(prep, name)
        except AttributeError:
            require(f"%{name}" not in names, f"{label}: {name} is not found", lines=lines)
        else:
            require(f"%{name}" in names, f"{label}: {name} is found but not there", lines=lines)
            same(prep.macros.find(f"%{name}"), names.index(f"%{name}"), f"{label}: find() {name}")
            require(got is prep.macros[names.index(f"%{name}")], f"{label}: attribute {name} is not the first one")


def read_run(lines, ctx):
    """every %prep of up to 3 of 33 line shapes and 5 (6) of 8: the macros, their kinds, names, numbers, options; membership and lookup; writing back"""
    ctx.step()
    prep = parse(lines)
    check(prep, lines, "parsed")
    same(raw(prep), list(lines), "writing back changes the section")
    ctx.state(tuple(l in MACROS for l in lines), tuple(MACROS[l][1] for l in lines if l in MACROS))


def read_cases(tier):
    yield from (list(t) for t in sequences(tier))


# --- edits in place ----------------------------------------------------------------------


def edit_cases(tier):
    pool = ["%setup", "%patch1 -p1", "%patch -P 2 -p1", " %patch -P5", "%patch 3 -R", "%patch -p1 -b .bak", "%{!?nope:%patch -P6 -E}", "cd x && %patch9 -p0", "%autosetup -N ", "cd x", "# comment", ""]
    for k in range(1, 4 if tier == "quick" else 5):
        for t in itertools.product(pool, repeat=k):
            ms = [l for l in t if l in MACROS]
            n = len(ms)
            for i in range(-n, n):
                yield {"lines": list(t), "op": ["del", i]}
                yield {"lines": list(t), "op": ["pop", i]}
            for i in range(n):
                yield {"lines": list(t), "op": ["remove", i]}
                if ms[i] in NUMBERED:
                    for v in (0, 1, 4, 17):
                        yield {"lines": list(t), "op": ["number", i, v]}
                    yield {"lines": list(t), "op": ["opt", i, "p", 3]}
                    yield {"lines": list(t), "op": ["opt", i, "p", None]}
                    yield {"lines": list(t), "op": ["opt", i, "b", "x y"]}
            for name in ("setup", "patch1", "patch", "autosetup", "patch7"):
                yield {"lines": list(t), "op": ["delattr", name]}
            for sl in ([0, 2, None], [None, None, -1], [1, None, None], [None, None, 2]):
                yield {"lines": list(t), "op": ["delslice"] + sl}
            yield {"lines": list(t), "op": ["clear"]}
            for v in (0, 1, 2, 3, 5, 6, 8):
                yield {"lines": list(t), "op": ["removepatch", v]}


def edit_run(case, ctx):
    """every %prep of up to 3 (4) of 12 line shapes x every edit of every macro: only the line of that macro changes or goes"""
    lines, op = case["lines"], case["op"]
    where = [i for i, l in enumerate(lines) if l in MACROS]
    n = len(where)
    prep = parse(lines)
    ctx.step()
    gone = None
    if op[0] == "del":
        del prep.macros[op[1]]
        gone = [where[op[1]]]
    elif op[0] == "pop":
        m = prep.macros.pop(op[1])
        same(m.name, MACROS[lines[where[op[1]]]][1], "popped macro")
        gone = [where[op[1]]]
    elif op[0] == "remove":
        m = prep.macros[op[1]]
        i = next(k for k, x in enumerate(prep.macros) if x == m)
        prep.macros.remove(m)
        gone = [where[i]]
    elif op[0] == "delslice":
        del prep.macros[op[1] : op[2] : op[3]]
        gone = where[op[1] : op[2] : op[3]]
    elif op[0] == "clear":
        prep.macros.clear()
        gone = where
    elif op[0] == "delattr":
        names = [MACROS[lines[i]][1] for i in where]
        try:
            delattr(prep, op[1])
        except AttributeError:
            require("%" + op[1] not in names, "a macro that is there can't be deleted by name", lines=lines)
            gone = []
        else:
            require("%" + op[1] in names, "deleting an absent macro is silently accepted", lines=lines)
            gone = [where[names.index("%" + op[1])]]
    elif op[0] == "removepatch":
        prep.remove_patch_macro(op[1])
        gone = [i for i in where if MACROS[lines[i]][2] == op[1]][:1]
    if gone is not None:
        want = [l for i, l in enumerate(lines) if i not in gone]
        same(raw(prep), want, f"lines after {op}", lines=lines)
        check(prep, want, f"after {op}")
        check(parse(raw(prep)), want, f"after {op}, parsed again")
        ctx.state(tuple(want))
        return
    m = prep.macros[op[1]]
    at = where[op[1]]
    if op[0] == "number":
        m.number = op[2]
        same(m.number, op[2], "number after setting it", lines=lines)
    else:
        setattr(m.options, op[2], op[3])
        same(getattr(m.options, op[2]), op[3], "option after setting it")
    got = raw(prep)
    same(got[:at] + got[at + 1 :], lines[:at] + lines[at + 1 :], "other lines changed", after=got)
    same(len(got), len(lines), "number of lines")
    again = parse(got)
    same(len(again.macros), n, "number of macros after parsing again", after=got)
    m2 = again.macros[op[1]]
    old = MACROS[lines[at]]
    same(m2.number, op[2] if op[0] == "number" else old[2], "number after parsing again", after=got, lines=lines)
    for k, v in old[3].items():
        if op[0] == "number" and k == "P" or op[0] == "opt" and k == op[2]:
            continue
        same(getattr(m2.options, k), v, f"option -{k} after parsing again", after=got)
    if op[0] == "opt":
        same(getattr(m2.options, op[2]), op[3], "option after parsing again", after=got)
    head, tail = re.match(r"^(.*?)%patch", lines[at])[1], "}" if lines[at].endswith("}") else ""
    require(got[at].startswith(head) and got[at].endswith(tail), "text around the macro changed", after=got)
    ctx.state(tuple(got))


# --- every option of every macro ---------------------------------------------------------------

FLAGS = {SetupMacro: "cDTq", AutosetupMacro: "cDTvN", AutopatchMacro: "v", PatchMacro: "REZ"}
VALUED = {SetupMacro: "abn", AutosetupMacro: "abnSp", AutopatchMacro: "pmM", PatchMacro: "pbzFdo"}
BARE = {
    "%autosetup": (AutosetupMacro, "%autosetup", None, {}, []),
    "%autopatch": (AutopatchMacro, "%autopatch", None, {}, []),
    "%setup  ": (SetupMacro, "%setup", None, {}, []),
    "%{!?nope:%setup}": (SetupMacro, "%setup", None, {}, []),
    "%{!?nope:%autosetup -p1}": (AutosetupMacro, "%autosetup", None, {"p": 1}, []),
    "true; %autopatch -v": (AutopatchMacro, "%autopatch", None, {"v": True}, []),
}
OPTION_TEXTS = list(MACROS) + list(BARE)
OPTION_VALUES = [0, 1, 12, ".x", "a b", "%{name}-x", "it's", 'a"b']


def option_cases(tier):
    for t, text in enumerate(OPTION_TEXTS):
        klass = (MACROS.get(text) or BARE[text])[0]
        edits = [[o, v] for o in FLAGS[klass] for v in (True, False)] + [[o, v] for o in VALUED[klass] for v in OPTION_VALUES + [None]]
        for e in edits:
            yield {"text": t, "edits": [e]}
        few = [e for e in edits if e[1] in (True, False, None, 12, "a b") and e[1] != 1 or e[1] is True]
        for e, e2 in itertools.product(few, repeat=2):
            yield {"text": t, "edits": [e, e2]}


def option_run(case, ctx):
    """every macro x every edit, and every pair of edits, of every option it has: the option reads back now and after parsing again, every other option, the arguments, the number and the text around stay"""
    text = OPTION_TEXTS[case["text"]]
    klass, name, number, _, positional = MACROS.get(text) or BARE[text]
    lines = ["cd x", text, "%patch1 -p1"]
    prep = parse(lines)
    m = prep.macros[0]
    every = FLAGS[klass] + VALUED[klass] + ("P" if klass is PatchMacro else "")
    want = {o: getattr(m.options, o) for o in every}
    default = {o: getattr(klass(name, parse([name]).macros[0].options, "").options, o) for o in every}
    for o, v in case["edits"]:
        ctx.step()
        setattr(m.options, o, v)
        want[o] = v if v is not None else default[o]
        for label, now in (("", m), ("parsed again: ", parse(raw(prep)).macros[0])):
            same(type(now).__name__, klass.__name__, f"{label}kind of macro", lines=raw(prep))
            same({k: getattr(now.options, k) for k in every}, want, f"{label}options", lines=raw(prep), edits=case["edits"])
            same(list(now.options.positional), positional, f"{label}positional arguments", lines=raw(prep))
            same(now.name, name, f"{label}name", lines=raw(prep))
            if number is not None:
                same(now.number, number, f"{label}number", lines=raw(prep))
    got = raw(prep)
    same([got[0], got[2]], [lines[0], lines[2]], "other lines", after=got)
    head, tail = text[: text.index("%" + name[1:])], "}" if text.endswith("}") else ""
    require(got[1].startswith(head + name) and got[1].endswith(tail), "text around the macro changed", after=got)
    ctx.state(got[1])


# --- adding patch macros --------------------------------------------------------------------

ADD_ARGS = [(None, False), (None, True)] + [(n, o) for n in (0, 1, 3, 4, 8, 20) for o in (False, True)]
ADD_OPTS = [{}, {"p": 1}, {"p": 1, "b": ".x", "R": True}, {"d": "a b"}]


def add_cases(tier):
    pool = ["%setup", "%patch1 -p1", "%patch -P 2 -p1", "%patch 3 -R", " %patch -P5", "%patch", "%patch10 -p1 -d 'a b'", "cd x", "# comment"]
    for k in range(0, 4 if tier == "quick" else 5):
        for t in itertools.product(pool, repeat=k):
            for i in range(len(ADD_ARGS)):
                for o in range(len(ADD_OPTS)) if k < 3 else (i % len(ADD_OPTS),):
                    yield {"lines": list(t), "args": i, "opts": o}
            yield {"lines": list(t), "args": 0, "opts": {"P": 4}}


def add_run(case, ctx):
    """every %prep of up to 3 (4) of 9 line shapes x every add_patch_macro() call: one new line with the number and options asked for, next to the closest number and in order, nothing else changes"""
    lines = case["lines"]
    number, old = ADD_ARGS[case["args"]]
    opts = case["opts"] if isinstance(case["opts"], dict) else ADD_OPTS[case["opts"]]
    prep = parse(lines)
    prep.add_patch_macro(number, old, **opts)
    ctx.step()
    got = raw(prep)
    same(len(got), len(lines) + 1, "number of lines", after=got)
    n = number if number is not None else opts.get("P", 0)
    # the position of the new line: removing it gives the original lines
    at = [i for i in range(len(got)) if got[:i] + got[i + 1 :] == lines]
    require(at, "other lines changed", lines=lines, after=got)
    again = parse(got)
    before = [MACROS[l] for l in lines if l in MACROS]
    p = next(
        (k for k, m in enumerate(again.macros) if [x.name for x in again.macros][:k] + [x.name for x in again.macros][k + 1 :] == [b[1] for b in before] and isinstance(m, PatchMacro) and m.number == n and all(getattr(m.options, a) == v for a, v in opts.items()) and fits(again, k, n, before)),
        None,
    )
    require(p is not None, "no suitable new macro at a suitable position", lines=lines, after=got, number=n)
    m = again.macros[p]
    if number is not None:
        same(m.name, f"%patch{number}" if old else "%patch", "name of the new macro", after=got)
        if not old:
            same(list(m.options.positional), [number], "number of the new macro", after=got)
    same(set(m.options), set(opts), "options of the new macro", after=got)
    ctx.state(tuple(got))


def fits(prep, k, n, before):
    numbers = [b[2] for b in before if b[2] is not None]
    if not numbers:
        return k == len(before)
    nearest = min(abs(x - n) for x in numbers)
    prev = before[k - 1][2] if k > 0 else None
    nxt = before[k][2] if k < len(before) else None
    return (
        prev is not None and abs(prev - n) == nearest and prev <= n
        or nxt is not None and abs(nxt - n) == nearest and nxt > n
    )


# --- what RPM applies -----------------------------------------------------------------------


def rpm_cases(tier):
    # RPM 4.18 recognises %patch only at the beginning of a line
    pool = [m for m in NUMBERED if m.startswith("%") and "patches_on" not in m and "012" not in m and "'" not in m] + ["%setup"]
    for k in range(1, 3 if tier == "quick" else 4):
        for t in itertools.product(pool, repeat=k):
            yield {"lines": list(t), "op": ["none"]}
            for i, l in enumerate(t):
                if l in NUMBERED:
                    for v in (0, 4, 10):
                        yield {"lines": list(t), "op": ["number", i, v]}
            for n, old in ((1, False), (4, True), (10, False), (None, False)):
                yield {"lines": list(t), "op": ["add", n, old]}
            for n in (0, 1, 2, 3):
                yield {"lines": list(t), "op": ["rm", n]}


def applied(text, d):
    s = Oracle.parse(text, d)
    if s is None:
        return None
    return [int(x) for x in re.findall(r"Patch #(\d+) \(", s.prep or "")]


def rpm_run(case, ctx):
    """%prep sections of up to 2 (3) macros in real spec files, unchanged, renumbered, extended and reduced: the numbers and order are those of the patches RPM applies"""
    lines, op = case["lines"], case["op"]
    text = "\n".join(HEADER + ["Source0: x.tar"] + [f"Patch{i}: p{i}.patch" for i in range(12)] + TAIL + ["%prep"] + lines + ["", "%build", "b"]) + "\n"
    d = ctx.fresh_dir()
    for i in range(12):
        with open(f"{d}/p{i}.patch", "w") as f:
            f.write("x")
    with open(f"{d}/x.tar", "w") as f:
        f.write("x")
    want = applied(text, d)
    if want is None:
        ctx.state("rejected by RPM")
        return
    spec = load(ctx, text)
    with spec.prep() as prep:
        got = [m.number for m in prep.macros if isinstance(m, PatchMacro)]
        same(got, want, "patches applied by RPM", lines=lines)
        if op[0] == "number":
            prep.macros[op[1]].number = op[2]
            k = sum(l in NUMBERED for l in lines[: op[1]])
            want[k] = op[2]
        elif op[0] == "add":
            prep.add_patch_macro(op[1], op[2], p=1)
            n = op[1] or 0
        elif op[0] == "rm":
            prep.remove_patch_macro(op[1])
            if op[1] in want:
                want.remove(op[1])
        if op[0] == "add":
            now = [m.number for m in prep.macros if isinstance(m, PatchMacro)]
            require(any(now[:i] + now[i + 1 :] == want and now[i] == n for i in range(len(now))), "numbers after adding a patch macro", before=want, after=now)
            want = now
    ctx.step()
    same(applied(str(spec), d), want, f"patches applied by RPM after {op}", lines=lines, after=str(spec))
    if op[0] == "none":
        same(str(spec), text, "reading changed the spec file")
    ctx.state(tuple(want), op[0])


SPACES = [
    FnSpace("lines", read_cases, read_run),
    FnSpace("edits", edit_cases, edit_run),
    FnSpace("options", option_cases, option_run),
    FnSpace("add", add_cases, add_run),
    FnSpace("rpm", rpm_cases, rpm_run),
]
