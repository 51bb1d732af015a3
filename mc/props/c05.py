"""C05 -- validity of lines, tags and macro definitions in conditional blocks agrees with RPM."""
import itertools

import rpm

from mc.core import FnSpace, Violation, require, same
from mc.lib import HEADER, TAIL, Oracle, load
from specfile.conditions import process_conditions
from specfile.macro_definitions import MacroDefinitions

ASSUMPTIONS = [
    "the installed RPM 4.18.2 decides which branch of a condition is read",
    "conditions open and close in the same section and do not depend on a macro that is "
    "defined or redefined later in the spec file",
    "host is x86_64 linux (names are taken from RPM at run time)",
]

ARCH = rpm.expandMacro("%{_target_cpu}")
OS = rpm.expandMacro("%{_target_os}")

# symbol -> (kind, lines, value)
SYM = {
    "if0": ("if", ["%if 0"], False),
    "if1": ("if", ["%if 1"], True),
    "ifm": ("if", ["%if 0%{?m} == 7"], True),
    "ifu": ("if", ["  %if 0%{?u}  "], False),
    "ifs": ("if", ['%if "%{?u}"'], False),
    "ifx": ("if", ['%if "%{m}" == "7" && ! 0'], True),
    "ifc1": ("if", ["%if 0 || \\", "1"], True),
    "ifc0": ("if", ["%if 1 && \\", "  1 && \\", "0"], False),
    "ife0": ("if", ["%{expand:%%if 0}"], False),
    "ar1": ("if", [f"%ifarch foo {ARCH}"], True),
    "ar0": ("if", ["%ifarch foo"], False),
    "na0": ("if", [f"%ifnarch {ARCH} foo"], False),
    "na1": ("if", ["%ifnarch %{?u} foo"], True),
    "os1": ("if", [f"%ifos {OS}"], True),
    "no0": ("if", [f"%ifnos {OS}"], False),
    "no1": ("if", ["%ifnos foo"], True),
    "el0": ("elif", ["%elif 0"], False),
    "el1": ("elif", ["%elif 1"], True),
    "elm": ("elif", [" %elif 0%{?m}"], True),
    "elc": ("elif", ["%elif 0 || \\", "1"], True),
    "ela1": ("elif", [f"%elifarch {ARCH}"], True),
    "elo0": ("elif", ["%elifos foo"], False),
    "else": ("else", ["%else"], None),
    "elsc": ("else", ["  %else # comment"], None),
    "end": ("end", ["%endif"], None),
    "endc": ("end", ["%endif # comment"], None),
    "P": ("plain", None, None),
    "cmt": ("inert", ["#%if 0"], None),
    "mb": ("inert", ["%define mb() \\", "%if 0 \\", "%{nil}"], None),
    "mb2": ("inert", ["%global mb2 %{expand:", "%if 0", "}"], None),
    "mb3": ("inert", ["%define mb3() \\", "x \\", "%if 0"], None),
    "mb4": ("inert", ["%global mb4 %{expand:%%if 0", "%else", "%endif}"], None),
    "mb5": ("inert", ["  %define mb5 \\", "%endif"], None),
    "cend": ("inert", ["# %endif"], None),
}


def wellformed(alphabet, maxlen, maxdepth=3):
    """All complete, well-formed words of up to maxlen symbols with at least one plain line."""

    def rec(word, stack, left):
        if not stack and "P" in word:
            yield word
        if left == 0 or len(stack) > left:
            return
        for s in alphabet:
            kind = SYM[s][0]
            if kind == "if":
                if len(stack) < maxdepth and len(stack) + 2 <= left:
                    yield from rec(word + [s], stack + ["if"], left - 1)
            elif kind == "elif":
                if stack and stack[-1] == "if":
                    yield from rec(word + [s], stack, left - 1)
            elif kind == "else":
                if stack and stack[-1] == "if":
                    yield from rec(word + [s], stack[:-1] + ["else"], left - 1)
            elif kind == "end":
                if stack:
                    yield from rec(word + [s], stack[:-1], left - 1)
            else:
                yield from rec(word + [s], stack, left - 1)

    for n in range(1, maxlen + 1):
        for w in rec([], [], n):
            if len(w) == n and expansion_is_read(w):
                yield w


def expansion_is_read(word):
    """A condition produced by a macro is only a condition where RPM expands the line."""
    if "ife0" not in word:
        return True
    r = Reader()
    for s in word:
        if s == "ife0" and not r.reading:
            return False
        r.feed(SYM[s][0], SYM[s][2])
    return True


class Reader:
    """RPM's read stack."""

    def __init__(self):
        self.stack = []  # [reading, any branch taken, parent reading]

    @property
    def reading(self):
        return all(f[0] for f in self.stack)

    def feed(self, kind, value):
        if kind == "if":
            outer = self.reading
            self.stack.append([value, value])
            return outer
        if kind in ("elif", "else"):
            f = self.stack[-1]
            f[0] = (not f[1]) and (value if kind == "elif" else True)
            f[1] = f[1] or f[0]
            inner, self.stack[-1][0] = f[0], True
            outer = self.reading
            self.stack[-1][0] = inner
            return outer
        if kind == "end":
            self.stack.pop()
        return self.reading


def render(word):
    """[(line, expected validity or None)]"""
    out, r = [], Reader()
    n = 0
    for s in word:
        kind, lines, value = SYM[s]
        v = r.feed(kind, value)
        if kind == "plain":
            n += 1
            out.append((f"Provides: p{n}", v))
        else:
            # continuation lines of a condition carry no content of their own
            out.append((lines[0], v))
            out += [(line, v if kind == "inert" else None) for line in lines[1:]]
    return out


QUICK_A = ["P", "if0", "if1", "el0", "el1", "else", "end"]
ALL = list(SYM)


def line_cases(tier):
    deep = 9 if tier == "quick" else 10
    for w in wellformed(QUICK_A, deep):
        yield w
    mixed = 5 if tier == "quick" else 6
    for w in wellformed(ALL, mixed):
        yield w


def line_setup(ctx):
    Oracle.reset([("m", "7")])


def line_run(word, ctx):
    """every well-formed nesting of conditions up to the length bound: the validity of every line against RPM's read-stack semantics"""
    expected = render(word)
    lines = [l for l, _ in expected]
    mds = MacroDefinitions.parse(lines)
    got = process_conditions(list(lines), mds)
    ctx.step(len(lines))
    same([l for l, _ in got], lines, "the lines are not returned unchanged")
    for i, ((line, valid), (_, want)) in enumerate(zip(got, expected)):
        if want is not None:
            same(bool(valid), want, f"validity of line {i} {line!r}", lines=lines)
    ctx.state(tuple(v for _, v in expected), tuple(SYM[s][0] for s in word))


LOOKALIKES = {
    "k1": ("inert", ["%iffy 0"], None),
    "k2": ("inert", ["%endiffy"], None),
    "k3": ("inert", ["%elsewhere"], None),
    "k4": ("inert", ["%ifarchx foo"], None),
    "k5": ("inert", ["%elifx 1"], None),
    "k6": ("inert", ["x %if 0"], None),
    "k7": ("inert", ["if 0"], None),
    "k8": ("inert", ["x %endif"], None),
    "k9": ("inert", ["%IF 0"], None),
}


def loose_cases(tier):
    for k in range(1, 7 if tier == "quick" else 8):
        for w in itertools.product(["P", "if0", "if1", "el1", "else", "end"], repeat=k):
            if "P" in w:
                yield list(w)
    for k in range(1, 5):
        for w in itertools.product(["P", "if0", "if1", "else", "end"] + list(LOOKALIKES), repeat=k):
            if "P" in w and any(s in LOOKALIKES for s in w):
                yield list(w)


def loose_run(word, ctx):
    """every sequence of conditions, also unbalanced (beginning or ending elsewhere), and of lines that only look like conditions: reading never fails, all lines come back, and exactly those inside of a false branch that begins here are not valid"""
    lines, want, stack, known = [], [], [], True
    for s in word:
        kind, ls, value = LOOKALIKES.get(s) or SYM[s]
        if kind == "if":
            stack.append(["if", value, value])
        elif kind in ("elif", "else") and stack:
            f = stack[-1]
            if f[0] == "else":
                known = False  # a second %else, or %elif after %else
            f[1] = not f[2] and (value if kind == "elif" else True)
            f[2] = f[2] or f[1]
            f[0] = kind
        elif kind == "end" and stack:
            stack.pop()
        lines += ls or ["Provides: p"]
        want.append(all(f[1] for f in stack) if kind in ("plain", "inert") else None)
    got = process_conditions(list(lines), MacroDefinitions.parse(lines))
    ctx.step(len(lines))
    same([l for l, _ in got], lines, "the lines are not returned unchanged")
    if known:
        for i, ((line, valid), w) in enumerate(zip(got, want)):
            if w is not None:
                same(bool(valid), w, f"validity of line {i} {line!r}", lines=lines)
    ctx.state(tuple(want))


SPEC_A = ["P", "if0", "if1", "ifm", "el0", "el1", "else", "end"]
SPEC_B = ["P"] + [s for s in ALL if SYM[s][0] != "plain"]


def spec_cases(tier):
    for w in wellformed(SPEC_A, 6 if tier == "quick" else 7, 2):
        yield w
    for w in wellformed(SPEC_B, 4 if tier == "quick" else 5, 2):
        if w.count("P") <= 2:
            yield w


def build_spec(word):
    body, n = [], 0
    for s in word:
        kind, lines, value = SYM[s]
        if kind == "plain":
            n += 1
            body += [f"Provides: p{n}", f"%global g{n} 1", f"# note {n}"]
        else:
            body += lines
    return ["%global m 7"] + HEADER + body + TAIL, n


def spec_run(word, ctx):
    """the same words as real spec files: tags() and macro_definitions() validity against what RPM really reads"""
    lines, n = build_spec(word)
    text = "\n".join(lines) + "\n"
    d = ctx.fresh_dir()
    oracle = Oracle.parse(text, d)
    if oracle is None:
        ctx.state("rejected by RPM")
        return
    parsed = oracle.parsed.splitlines()
    want = [f"Provides: p{i}" in parsed for i in range(1, n + 1)]
    defined = [rpm.expandMacro(f"%{{?g{i}}}") == "1" for i in range(1, n + 1)]
    same(defined, want, "harness: the oracle is inconsistent")
    # the reference read stack agrees with RPM (this binds the model used above to RPM)
    model = [v for l, v in render(word) if l.startswith("Provides: ")]
    same(model, want, "harness: the reference read stack disagrees with RPM", lines=lines)
    spec = load(ctx, text)
    ctx.step(2)
    with spec.tags() as tags:
        got = {t.value: t.valid for t in tags if t.name == "Provides"}
    same([got.get(f"p{i}") for i in range(1, n + 1)], want, "validity of tags", lines=lines)
    with spec.macro_definitions() as mds:
        got = {m.name: m.valid for m in mds}
    same([got.get(f"g{i}") for i in range(1, n + 1)], want, "validity of macro definitions", lines=lines)
    same(str(spec), text, "reading changed the spec file")
    ctx.state(tuple(want), tuple(word))


# --- expressions -----------------------------------------------------------------------

TERMS = ["0", "1", "2", "0%{?u}", "0%{?m}", "%{m}", '"a"', '""', '"%{?u}"', '"%{m}"', "%{defined m}", "%{undefined m}", "(0)", "%[1-1]", "%{with foo}"]
BIN = ["==", "!=", "<", ">", "<=", ">=", "&&", "||", "+", "-", "*"]


def expr_cases(tier):
    for a in TERMS:
        yield a
        yield f"!{a}"
        yield f"! {a} "
        for op in BIN:
            for b in TERMS:
                yield f"{a} {op} {b}"
    for op in BIN[:6]:
        for a, b in itertools.product(['v"1.2"', 'v"1.10"', 'v"%{m}"'], repeat=2):
            yield f"{a} {op} {b}"
    for a, b, c in itertools.product(TERMS[:7], repeat=3):
        for op1, op2 in itertools.product(("&&", "||"), repeat=2):
            yield f"{a} {op1} {b} {op2} !{c}"
            yield f"({a} {op1} {b}) {op2} {c}"
        yield f"{a} ? {b} : {c}"


def expr_run(e, ctx):
    """every expression over a small term/operator grammar: the branch taken is the one RPM takes"""
    ctx.step()
    key = "oracle"
    lines = HEADER + [f"%if {e}", "Provides: p", "%endif"] + TAIL
    d = ctx.scratch
    s = Oracle.parse("\n".join(lines) + "\n", d, [("m", "7")])
    if s is None:
        ctx.state("rejected by RPM")
        return
    want = "Provides: p" in s.parsed.splitlines()
    got = process_conditions([f"%if {e}", "P", "%else", "Q", "%endif"])
    same([bool(got[1][1]), bool(got[3][1])], [want, not want], "branch taken", expression=e)
    ctx.state(e, want)


# --- architectures and operating systems ---------------------------------------------------

KEYWORDS = ["%ifarch", "%ifnarch", "%ifos", "%ifnos", "%elifarch", "%elifos"]
TARGETS = []
for _t in (ARCH, OS):
    TARGETS += [_t, _t.upper(), _t.capitalize(), _t + "x", "x" + _t, _t + "-gnu", _t[:-1], _t[1:], f"{_t},foo", f'"{_t}"', f"!{_t}"]
TARGETS += ["noarch", "i686", "%{ix86}", "%{t}", "%{?u}", "%{_target_cpu}", "%{_target_os}", "%{_arch}", "aarch64", "#"]


def arch_cases(tier):
    for k in KEYWORDS:
        for a in TARGETS:
            yield [k, a]
        for a, b in itertools.product(TARGETS, repeat=2):
            yield [k, f"{a} {b}"]
        for a in TARGETS:
            for sep in ("\t", "  "):
                yield [k + sep, f"foo{sep}{a} "]
        if tier != "quick":
            for a, b, c in itertools.product(TARGETS, repeat=3):
                yield [k, f"{a} {b} {c}"]


def arch_run(case, ctx):
    """every %ifarch, %ifnarch, %ifos, %ifnos, %elifarch, %elifos with up to 2 (3) names, exact and look-alike: the branch taken is the one RPM takes"""
    ctx.step()
    k, names = case
    start = ["%if 0", "%global z 1"] if k.startswith("%el") else []
    cond = start + [f"{k} {names}"]
    lines = HEADER + cond + ["Provides: p", "%else", "Provides: q", "%endif"] + TAIL
    s = Oracle.parse("\n".join(lines) + "\n", ctx.scratch, [("t", f"zz {ARCH} {OS}-x")])
    if s is None:
        ctx.state("rejected by RPM")
        return
    want = "Provides: p" in s.parsed.splitlines()
    got = process_conditions(cond + ["P", "%else", "Q", "%endif"])
    n = len(cond)
    same([bool(got[n][1]), bool(got[n + 2][1])], [want, not want], "branch taken", condition=cond)
    ctx.state(tuple(case), want)


# --- deep nesting ------------------------------------------------------------------------


def deep_cases(tier):
    depth = 24 if tier == "quick" else 60
    for d in range(1, depth + 1):
        for false_at in range(-1, d):
            for style in ("if", "else", "elif", "chain"):
                yield [d, false_at, style]


def deep_run(case, ctx):
    """conditions nested up to 24 (60) levels or chained in that many branches, with the false branch at every level: only the lines inside the false branch are invalid"""
    depth, false_at, style = case
    lines, want = [], []

    def add(line, valid):
        lines.append(line)
        want.append(valid)

    if style == "chain":
        # one block with `depth` branches; the branch false_at is taken (-1: the %else)
        for i in range(depth):
            add(f"{'%if' if i == 0 else '%elif'} {int(i == false_at)}", None)
            add(f"p{i}", i == false_at)
        add("%else", None)
        add("q", false_at == -1)
        add("%endif", None)
    else:
        ok = True
        for i in range(depth):
            value = i != false_at
            if style == "if":
                add(f"%if {int(value)}", None)
            elif style == "else":
                add(f"%if {int(not value)}", None)
                add(f"x{i}", ok and not value)
                add("%else", None)
            else:
                add("%if 0", None)
                add(f"%elif {int(value)}", None)
            ok = ok and value
            add(f"p{i}", ok)
        for i in reversed(range(depth)):
            add("%endif", None)
            add(f"r{i}", not 0 <= false_at < i)
    add("last", True)
    got = process_conditions(list(lines))
    ctx.step(len(lines))
    same([l for l, _ in got], lines, "the lines are not returned unchanged")
    for (line, valid), w in zip(got, want):
        if w is not None:
            same(bool(valid), w, f"validity of {line!r}", lines=lines)
    ctx.state(tuple(case))


# --- recorded deviations ---------------------------------------------------------------

SPECIFIC = [
    HEADER + ['%if "0"', "Provides: p", "%endif"] + TAIL,
    HEADER + ['%if "}" == "}"', "Provides: p", "%endif"] + TAIL,
    HEADER + ["%if 0%{?late}", "Provides: p", "%endif", "%global late 1"] + TAIL,
    ["%global keep 1"] + HEADER + ["%if 0%{?keep}", "Provides: p", "%endif"] + TAIL,
    HEADER
    + TAIL
    + ["%if 0", "%package sub", "Summary: s", "Provides: p", "%description sub", "d", "%endif"],
]


def specific_run(lines, ctx):
    """individual spec files around known deviations"""
    text = "\n".join(lines) + "\n"
    o = Oracle.parse(text, ctx.fresh_dir())
    want = "Provides: p" in o.parsed.splitlines()
    spec = load(ctx, text)
    with spec.tags("package sub" if "%package sub" in lines else "package") as tags:
        same(tags.provides.valid, want, "validity of Provides", lines=lines)
    ctx.step()
    ctx.state(lines, want)


SPACES = [
    FnSpace("lines", line_cases, line_run, setup=line_setup),
    FnSpace("loose", loose_cases, loose_run, setup=line_setup),
    FnSpace("expressions", expr_cases, expr_run),
    FnSpace("targets", arch_cases, arch_run),
    FnSpace("deep", deep_cases, deep_run, setup=line_setup),
    FnSpace("specs", spec_cases, spec_run),
    FnSpace("specific", lambda tier: iter(SPECIFIC), specific_run),
]
