"""C16 -- values are split into macro nodes losslessly and at RPM's own boundaries."""
import itertools
import re

import rpm

from mc.core import FnSpace, Violation, require, same
from specfile.exceptions import UnterminatedMacroException
from specfile.value_parser import (
    BuiltinMacro,
    ConditionalMacroExpansion,
    EnclosedMacroSubstitution,
    ExpressionExpansion,
    MacroSubstitution,
    ShellExpansion,
    StringLiteral,
    ValueParser,
)

ASSUMPTIONS = [
    "RPM 4.18.2 (the installed bindings) defines how a macro string is split and expanded",
    "macro a=X1, b=Y.2, f(:) parametric, u undefined",
]


def setup(ctx):
    rpm.reloadConfig()
    rpm.addMacro("a", "X1")
    rpm.addMacro("b", "Y.2")
    rpm.addMacro("ab", "Z")
    rpm.addMacro("e", "")
    rpm.expandMacro("%define f() [%{#}:%*]")


def expand(s):
    try:
        return rpm.expandMacro(s)
    except rpm.error:
        return None


# --- character level -------------------------------------------------------------





def char_cases(tier):
    q = tier == "quick"
    plan = [
        ("a%{}?:!\\", 7 if q else 8),
        ("ab%{}?:!\\ ()[].1_$", 5 if q else 6),
        ("a%()\\{} ", 6 if q else 8),
        ("a%[]\\{}", 6 if q else 8),
        ("a1%*#-?{} _", 5 if q else 6),
    ]
    for alphabet, n in plan:
        for k in range(n + 1):
            for t in itertools.product(alphabet, repeat=k):
                yield "".join(t)


# RPM ends the name of a bracketed macro at the first space or colon: a colon behind a space
# belongs to the arguments of a call
COLON = re.compile(r"([?!]*)([^ :]*):", re.S)


def terminated(v):
    """
    RPM's own scan for the end of macros (rpmio/macro.c): True if every bracketed macro ends.
    """
    pairs = {"{": "}", "(": ")", "[": "]"}
    i = 0
    while i < len(v):
        if v[i] != "%":
            i += 1
            continue
        if i + 1 == len(v):
            return True
        c = v[i + 1]
        if c == "%":
            i += 2
            continue
        if c not in pairs:
            i += 1
            continue
        level, j = 0, i + 1
        while j < len(v):
            if v[j] == "\\":
                j += 2
                continue
            if v[j] == c:
                level += 1
            elif v[j] == pairs[c]:
                level -= 1
                if level == 0:
                    break
            j += 1
        if j >= len(v):
            return False
        if c == "{":
            body = v[i + 2 : j]
            m = COLON.match(body)
            if m and "?" in m.group(1):
                if not terminated(body[m.end() :]):
                    return False
        i = j + 1
    return True


def reference(v):
    """The constructs of a terminated value, read independently of the code under test."""
    pairs = {"{": "}", "(": ")", "[": "]"}
    out, lit, i = [], "", 0

    def flush():
        nonlocal lit
        if lit:
            out.append(("lit", lit))
        lit = ""

    while i < len(v):
        if v[i] != "%" or i + 1 == len(v):
            lit += v[i]
            i += 1
            continue
        c = v[i + 1]
        if c == "%":
            lit += "%%"
            i += 2
            continue
        if c in pairs:
            level, j = 0, i + 1
            while True:
                if v[j] == "\\":
                    j += 2
                    continue
                level += (v[j] == c) - (v[j] == pairs[c])
                if level == 0:
                    break
                j += 1
            body = v[i + 2 : j]
            flush()
            if c == "(":
                out.append(("shell", body))
            elif c == "[":
                out.append(("expr", body))
            else:
                rest = body.lstrip("?!")
                prefix = body[: len(body) - len(rest)]
                m = COLON.match(body)
                name, tail = (m.group(2), body[m.end() :]) if m else ("", "")
                if not m:
                    words = rest.split()
                    out.append(("enc", prefix, words[0] if words else "", tuple(words[1:])))
                elif "?" in prefix:
                    out.append(("cond", prefix, name, tuple(reference(tail))))
                else:
                    out.append(("builtin", prefix + name, tail))
            i = j + 1
            continue
        m = BARE.match(v, i + 1)
        if m.group(2):
            flush()
            out.append(("sub", m.group(1), m.group(2)))
            i = m.end()
        else:
            lit += "%" + m.group(1)
            i = m.end()
    flush()
    return out


# a macro without brackets: conditional prefix, optional dash, name, ** or * or #
BARE = re.compile(r"([?!]*)(-?\w*(?:\*\*|[*#])?)", re.A)


def normal(shapes):
    """A percent sign that begins no macro is literal text, however it is represented."""
    out = []
    for s in shapes:
        if s[0] == "sub" and not s[2]:
            s = ("lit", "%" + s[1])
        elif s[0] == "cond":
            s = s[:3] + (tuple(normal(s[3])),)
        if s[0] == "lit" and out and out[-1][0] == "lit":
            out[-1] = ("lit", out[-1][1] + s[1])
        else:
            out.append(s)
    return out


def node_shape(node, ctx):
    """What the public attributes of a node claim about its text."""
    if isinstance(node, StringLiteral):
        return ("lit", str(node))
    if isinstance(node, ExpressionExpansion):
        return ("expr", node.body)
    if isinstance(node, ShellExpansion):
        return ("shell", node.body)
    if isinstance(node, MacroSubstitution):
        return ("sub", node.prefix, node.name)
    if isinstance(node, EnclosedMacroSubstitution):
        return ("enc", node.prefix, node.name, tuple(node.args))
    if isinstance(node, ConditionalMacroExpansion):
        return ("cond", node.prefix, node.name, tuple(node_shape(n, ctx) for n in node.body))
    if isinstance(node, BuiltinMacro):
        return ("builtin", node.name, node.body)
    raise Violation(f"unknown node {node!r}")


def check_value(v, ctx):
    ctx.step()
    ok = terminated(v)
    try:
        nodes = ValueParser.parse(v)
    except UnterminatedMacroException:
        require(not ok, "a value whose macros all end is rejected as unterminated", value=v)
        ctx.state("unterminated")
        return None
    require(ok, "a value with an unterminated macro is accepted", value=v, nodes=list(map(str, nodes)))
    same("".join(map(str, nodes)), v, "the nodes do not concatenate to the value", nodes=list(map(str, nodes)))
    shapes = [node_shape(n, ctx) for n in nodes]
    same(normal(shapes), reference(v), "wrong nodes", value=v)
    ctx.state(tuple(s[0] for s in shapes), len(v))
    return nodes


def char_run(v, ctx):
    """every string over the macro metacharacters: lossless, and terminated exactly when RPM's scanner says so"""
    nodes = check_value(v, ctx)
    if nodes is None or "%" not in v:
        return
    if "%(" in v or "%[" in v:
        return  # running a shell or evaluating an expression is left to the word level
    whole = expand(v)
    if whole is None:
        return
    parts = [expand(str(n)) for n in nodes]
    if any(p is None for p in parts):
        raise Violation("RPM expands the value but rejects one of its nodes", value=v, nodes=list(map(str, nodes)))
    same("".join(parts), whole, "expanding node by node differs from expanding the value", value=v, nodes=list(map(str, nodes)))


# --- word level: atoms with known structure -----------------------------------------

ATOMS = [
    ("x", ("lit", "x")),
    (".", ("lit", ".")),
    (" ", ("lit", " ")),
    ("%%", ("lit", "%%")),
    ("\\", ("lit", "\\")),
    ("}", ("lit", "}")),
    ("%a", ("sub", "", "a")),
    ("%?a", ("sub", "?", "a")),
    ("%!?u", ("sub", "!?", "u")),
    ("%u", ("sub", "", "u")),
    ("%{a}", ("enc", "", "a", ())),
    ("%{?b}", ("enc", "?", "b", ())),
    ("%{!?u}", ("enc", "!?", "u", ())),
    ("%{u}", ("enc", "", "u", ())),
    ("%{u  x y}", ("enc", "", "u", ("x", "y"))),
    ("%{f x:y}", ("enc", "", "f", ("x:y",))),
    ("%{f %{?a:z}}", ("enc", "", "f", ("%{?a:z}",))),
    ("%{?u x:y}", ("enc", "?", "u", ("x:y",))),
    ("%{?a:1}", ("cond", "?", "a", (("lit", "1"),))),
    ("%{!?u:%{b}.%%}", ("cond", "!?", "u", (("enc", "", "b", ()), ("lit", ".%%")))),
    ("%{?u:x%a:y}", ("cond", "?", "u", (("lit", "x"), ("sub", "", "a"), ("lit", ":y")))),
    ("%{?a:{%{?b:%a}}}", ("cond", "?", "a", (("lit", "{"), ("cond", "?", "b", (("sub", "", "a"),)), ("lit", "}")))),
    ("%{?a:}", ("cond", "?", "a", ())),
    ("%{?a:\\}}", ("cond", "?", "a", (("lit", "\\}"),))),
    ("%{quote:p %{a}}", ("builtin", "quote", "p %{a}")),
    ("%{lower:P:%%}", ("builtin", "lower", "P:%%")),
    ("%[1+(2*3)]", ("expr", "1+(2*3)")),
    ("%[%{b}%[2]]", ("expr", "%{b}%[2]")),
    ("%[ \\] ]", ("expr", " \\] ")),
    ("%(:)", ("shell", ":")),
    ("%(: %{a} y)", ("shell", ": %{a} y")),
    ("%{**}", ("enc", "", "**", ())),
    ("%{-f*}", ("enc", "", "-f*", ())),
    ("%#", ("sub", "", "#")),
    ("%*", ("sub", "", "*")),
    ("%-f", ("sub", "", "-f")),
    ("%( : x\\) )", ("shell", " : x\\) ")),
]


def word_cases(tier):
    n = len(ATOMS)
    for k in range(1, 4 + 1):
        for t in itertools.product(range(n), repeat=k):
            if any(
                ATOMS[i][0] in ("%a", "%?a", "%!?u", "%u", "%-f", "%*") and ATOMS[j][0][0] in "x"
                for i, j in zip(t, t[1:])
            ):
                continue  # the name would swallow the literal
            if k > 2 and sum(ATOMS[i][1][0] == "shell" for i in t) > (1 if tier != "quick" else 0):
                continue  # every shell expansion forks; pairs and triples cover them
            yield list(t)


def merge(shapes):
    out = []
    for s in shapes:
        if s[0] == "lit" and out and out[-1][0] == "lit":
            out[-1] = ("lit", out[-1][1] + s[1])
        else:
            out.append(s)
    return out


def word_run(case, ctx):
    """every sequence of macro constructs of known structure: the exact node list, losslessness, and RPM's expansion node by node"""
    v = "".join(ATOMS[i][0] for i in case)
    nodes = check_value(v, ctx)
    require(nodes is not None, "a terminated value is rejected", value=v)
    same([node_shape(n, ctx) for n in nodes], merge(ATOMS[i][1] for i in case), "wrong nodes", value=v)
    # an independent parse is equal, a different value is not
    again = ValueParser.parse(v)
    require(again == nodes, "parsing twice gives different nodes", value=v)
    if any(ATOMS[i][1][0] == "shell" for i in case) and len(case) > 2:
        return
    whole = expand(v)
    parts = [expand(str(n)) for n in nodes]
    if whole is None:
        return
    same("".join(p if p is not None else "<error>" for p in parts), whole, "expanding node by node differs from expanding the value", value=v, nodes=list(map(str, nodes)))
    # flatten: conditional bodies taken as if the condition held
    def flat(shapes):
        for s in shapes:
            if s[0] == "cond":
                yield from flat(s[3])
            else:
                yield s
    same(
        [node_shape(n, ctx) for n in ValueParser.flatten(nodes)],
        list(flat(node_shape(n, ctx) for n in nodes)),
        "flatten() does not yield the nodes in order with conditional bodies inlined",
        value=v,
    )


SPACES = [
    FnSpace("strings", char_cases, char_run, setup=setup),
    FnSpace("constructs", word_cases, word_run, setup=setup),
]
