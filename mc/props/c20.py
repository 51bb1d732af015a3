"""C20 -- the global macro context: define, remove, expand, dump and reinit."""
import itertools
import os
import shutil
import subprocess
import sys

import rpm

from mc.core import FnSpace, Violation, require, same
from mc.lib import words
from specfile.exceptions import MacroRemovalException, RPMException
from specfile.macros import Macro, MacroLevel, Macros

ASSUMPTIONS = ["RPM 4.18.2 expands; the model is a stack of definitions per name", "bodies do not contain text that looks like a line of %dump, end a line with a backslash or begin with a newline (lines are joined and an empty first line is left out of the dumped body, as the tests of the project require)"]

# body: what %{name} expands to (None: an error), given what %{b} expands to
BODIES = {
    "1": "1",
    "": "",
    "%{b}.": "B.",
    "x\ny": "x\ny",
    "%%{a}": "%{a}",
    "%{error:boom}": None,
    "%(echo hi)": "hi",
    "tab\there": "tab\there",
    "%%x%%": "%x%",
    "  y": "  y",
    "z \t": "z \t",
    "p \n\n q\n": "p \n\n q\n",
}
NAMES = ["a", "b"]


def ops():
    out = []
    for body in BODIES:
        out.append(["define", "a", body])
        out.append(["push", "a", body])
    out += [["define", "b", "2"], ["push", "b", "3"], ["remove", "a"], ["remove", "b"], ["remove", "missing"], ["parametric", "a"], ["reinit"], ["reinit_spec"], ["dump"], ["expand_a"]]
    return out


OPS = ops()


def seq_cases(tier):
    yield []
    n = range(len(OPS))
    for w in words(n, 1, 2):
        yield list(w)
    small = [i for i, o in enumerate(OPS) if o[0] in ("remove", "reinit", "parametric") and o[1:] != ["missing"] or o[1:] in (["a", "1"], ["a", "%%{a}"], ["a", "%{error:boom}"], ["a", "%{b}."], ["b", "3"])]
    for w in words(small if tier == "quick" else n, 3, 3):
        yield list(w)
    if tier != "quick":
        for w in words(small, 4, 4):
            yield list(w)


PROBES = ["%{_bindir}", "%{dist}", "%{_sourcedir}", "%{upper:x}", "%{name}", "%{?missing}", "%%"]
FRESH = {}


def fresh_context():
    rpm.reloadConfig()
    FRESH["expansions"] = [rpm.expandMacro(p) for p in PROBES]
    FRESH["names"] = sorted(m.name for m in Macros.dump())


def seq_run(case, ctx):
    """every sequence of up to 3 operations (thorough: 4 of a smaller set) on the global context with ordinary, empty, nested, failing, multi-line, parametric and self-referring definitions: expansion, definedness and dump agree with the model after every operation, removal removes all definitions of exactly that name, defining leaves exactly one"""
    if not FRESH:
        fresh_context()
    rpm.reloadConfig()
    stack = {"a": [], "b": []}
    check(stack, ctx)
    for i in case:
        op = OPS[i]
        if op[0] == "define":
            Macros.define(op[1], op[2])
            stack[op[1]] = [op[2]]
        elif op[0] == "push":
            rpm.addMacro(op[1], op[2])
            stack[op[1]].append(op[2])
        elif op[0] == "parametric":
            rpm.expandMacro("%global a(x:) p%%{-x*}")
            stack["a"].append(None)
        elif op[0] == "remove":
            Macros.remove(op[1])
            if op[1] in stack:
                stack[op[1]] = []
        elif op[0] == "reinit":
            Macros.reinit()
            stack = {"a": [], "b": []}
        elif op[0] == "reinit_spec":
            Macros.reinit(MacroLevel.SPEC)
            stack = {"a": [], "b": []}
        elif op[0] == "dump":
            Macros.dump()
        elif op[0] == "expand_a":
            try:
                Macros.expand("%{a}")
            except RPMException:
                pass
        check(stack, ctx, [OPS[k] for k in case])
        ctx.step()
    ctx.state(sorted(stack.items()))
    for n in ("a", "b"):
        Macros.remove(n)
    same([rpm.expandMacro(p) for p in PROBES], FRESH["expansions"], "expansion of unrelated macros")
    same(sorted(m.name for m in Macros.dump()), FRESH["names"], "names of all macros after removing the defined ones")


def expected(stack, name):
    """(defined, expansion or None for an error)"""
    if not stack[name]:
        return False, "%{" + name + "}"
    body = stack[name][-1]
    if body is None:
        return True, "p"
    if name == "b":
        return True, body
    e = BODIES[body]
    if e is not None and body == "%{b}.":
        e = expected(stack, "b")[1] + "."
    return True, e


def check(stack, ctx, history=()):
    for name in NAMES:
        defined, expansion = expected(stack, name)
        same(rpm.expandMacro("%{?" + name + ":1}"), "1" if defined else "", "whether the macro is defined", macro=name, history=history)
        for text, want in (("%{" + name + "}", expansion), ("x%" + name, "x" + (expansion if defined else "%" + name) if expansion is not None else None), ("%{!?" + name + ":no}", "" if defined else "no"), ("%%" + name, "%" + name)):
            try:
                got = Macros.expand(text)
            except RPMException as e:
                got = None
                same(str(e).strip(), "boom", "the error message of RPM")
            same(got, want, "expansion", text=text, history=history)
    entries = [m for m in Macros.dump() if m.name in ("a", "b", "missing", "fake")]
    want = []
    for name in NAMES:
        if stack[name]:
            body = stack[name][-1]
            want.append((name, None, body) if body is not None else (name, "(x:)", "p%{-x*}"))
    same(sorted((m.name, m.options, m.body) for m in entries) if want or entries else [], sorted(want), "dumped definitions", history=history)
    for m in entries:
        same(m.level, MacroLevel.GLOBAL if m.options else MacroLevel.OLDSPEC, "level of a dumped macro", macro=m.name)


# --- names ---------------------------------------------------------------------------------------

ODD_NAMES = ["a", "_a", "a1", "A", "%a", "a%b", "a%%b", "%%", "te%st%%", "é", "__abc", "x" * 300]


def name_cases(tier):
    for n in ODD_NAMES:
        for k in (1, 2, 5, 19, 25):
            yield [n, k]


def name_run(case, ctx):
    """odd names and many definitions of the same name: removal terminates and removes all of them and no other macro"""
    name, k = case
    if not FRESH:
        fresh_context()
    rpm.reloadConfig()
    rpm.addMacro("keep", "k")
    before = [(m.name, m.options, m.body, m.level) for m in Macros.dump()]
    for i in range(k):
        rpm.addMacro(name, str(i))
    Macros.remove(name)
    same([(m.name, m.options, m.body, m.level) for m in Macros.dump()], before, "macros after the removal", name=name, k=k)
    Macros.define(name, "z")
    same(rpm.expandMacro("%{keep}"), "k", "another macro")
    Macros.remove(name)
    same([(m.name, m.options, m.body, m.level) for m in Macros.dump()], before, "macros after defining and removing", name=name, k=k)
    ctx.step()
    ctx.state(name)


# --- reinit -----------------------------------------------------------------------------------------


def reinit_cases(tier):
    for level in MacroLevel:
        for pre in range(4):
            yield [level.name, pre]


def reinit_run(case, ctx):
    """reinit() with every level after every kind of disturbance: the macros up to that level are as freshly loaded, the others are gone"""
    level, pre = MacroLevel[case[0]], case[1]
    rpm.reloadConfig()
    fresh = {(m.name, m.options, m.body, m.level) for m in Macros.dump() if m.level <= level}
    if pre >= 1:
        rpm.addMacro("_bindir", "/changed")
        rpm.addMacro("_sourcedir", "/changed")
    if pre >= 2:
        rpm.addMacro("new", "1")
        rpm.addMacro("new", "%{error:x}")
        rpm.expandMacro("%global other 1")
    if pre >= 3:
        rpm.delMacro("_libdir")
        rpm.delMacro("upper")
    Macros.reinit(level)
    after = {(m.name, m.options, m.body, m.level) for m in Macros.dump()}
    same(sorted(map(repr, after)), sorted(map(repr, fresh)), "macros after reinit", level=level.name, pre=pre)
    ctx.step()
    ctx.state(level.name, pre)
    rpm.reloadConfig()


SPACES = [
    FnSpace("sequences", seq_cases, seq_run),
    FnSpace("names", name_cases, name_run),
    FnSpace("reinit", reinit_cases, reinit_run),
]
