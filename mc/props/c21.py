"""C21 -- file names and remoteness of sources and patches."""
import itertools
import os
import re

import rpm

from mc.core import FnSpace, Violation, require, same
from mc.lib import HEADER, TAIL, Oracle, load, words
from specfile.utils import count_brackets, get_filename_from_location, split_conditional_macro_expansion

ASSUMPTIONS = ["RPM 4.18.2 decides which file a source refers to"]

TOKENS = ["a", "/", "=", "#", ".", "%{m}", "?", "http://h/", ":"]
EXTRA = ["https://h", "ftp://h/x", "file:///x/y", "file://h/y", "//h/x", "mailto:x", "http:/x", "%{u}", "HTTP://H/x", "http://h/x#/y", "http://h/x#/y=z", "x#y=z", "x=y", "%{u}#/%{m}.tar", "http://h/d?f=x.tar", "http://", "http:///x", "git+https://h/x.git", "1http://h/x", "a b.tar", "é.tar", "http://h/é", "%{name}-%{version}.tar.gz", "%{nosuch}/x=y", "http://u:p@h:80/x", "x//y", "./x", "../x", "/abs/x", "a%%b"]
MACROS = ["%global m 1.0", "%global u http://q/r/s=t"]
BATCH = 24


def location_list(tier):
    out = ["".join(w) for w in words(TOKENS, 1, 4 if tier == "quick" else 5)]
    out = [l for l in out if not l.startswith("#")]
    return EXTRA + out


def location_cases(tier):
    ls = location_list(tier)
    step = BATCH * 8
    for i in range(0, len(ls), step):
        yield [i, step]


def expand(location):
    return location.replace("%{m}", "1.0").replace("%{u}", "http://q/r/s=t").replace("%{name}", "test").replace("%{version}", "1").replace("%%", "%")


def ref_filename(location):
    """RPM: what follows the last slash and, there, the last equals sign; a location without a slash is a file name"""
    head, slash, tail = location.rpartition("/")
    return tail.rpartition("=")[2] if slash else location


def ref_remote(location):
    return bool(re.match(r"[A-Za-z][A-Za-z0-9+.-]*://[^/?#]", location))


def run_batch(locations, kind, ctx):
    """kind: Source or Patch tags, or a list section"""
    directory = ctx.fresh_dir()
    prefix = "Patch" if kind.startswith("Patch") else "Source"
    if kind.endswith("list"):
        doc = MACROS + HEADER + TAIL + ["%" + kind.lower()] + locations
    else:
        doc = MACROS + HEADER + [f"{prefix}{i}: {l}" for i, l in enumerate(locations)] + TAIL
    text = "\n".join(doc) + "\n"
    r = Oracle.parse(text, directory)
    if r is None:
        return False
    want = [rpm.expandMacro("%%{%s%d}" % (prefix.upper(), i)) for i in range(len(locations))]
    spec = load(ctx, text, sourcedir=directory)
    with (spec.sources if prefix == "Source" else spec.patches)() as sources:
        same([s.location for s in sources], locations, "locations")
        for i, s in enumerate(sources):
            e = expand(s.location)
            same(s.expanded_location, e, "expanded location", location=s.location)
            if s.expanded_filename.strip("."):
                same(os.path.join(directory, s.expanded_filename), want[i], "file RPM reads", location=s.location)
            same(s.expanded_filename, ref_filename(e), "expanded file name", location=s.location)
            same(s.filename, ref_filename(s.location), "literal file name", location=s.location)
            same(s.remote, ref_remote(e), "remote", location=s.location)
            ctx.step()
            ctx.state(s.location)
    same(str(spec), text, "content")
    return True


def location_run(case, ctx):
    """every location of up to 4 (5) tokens, in tags and lists, as source and patch: the expanded file name is the file RPM reads, the literal one the corresponding part of the text, and a source is remote if and only if its expanded location has a scheme and a host"""
    ls = LOCATIONS[ctx_tier()][case[0] : case[0] + case[1]]
    kinds = ["Source", "Patch", "Sourcelist", "Patchlist"]
    for k in range(0, len(ls), BATCH):
        batch = ls[k : k + BATCH]
        for kind in kinds if case[0] == 0 else [kinds[(case[0] // case[1] + k // BATCH) % 4]]:
            todo = [batch]
            while todo:
                b = todo.pop()
                if b and not run_batch(b, kind, ctx):
                    # RPM rejects one of them: find the others
                    if len(b) > 1:
                        todo += [b[: len(b) // 2], b[len(b) // 2 :]]


def ctx_tier():
    return os.environ.get("VERIF_TIER", "quick")


LOCATIONS = {t: location_list(t) for t in ("quick", "thorough")}

# --- helpers on strings ----------------------------------------------------------------------------


BRACKETS = ["%", "{", "}", "(", ")", "\\", "a", "%{", "%("]


def bracket_cases(tier):
    for w in words(BRACKETS, 0, 2 if tier == "quick" else 3):
        yield list(w)


def ref_brackets(s):
    """open braces and parentheses of %{ and %( expansions; a backslash and a percent sign hide the next character"""
    b = p = i = 0
    while i < len(s):
        c = s[i]
        if c in "\\%" and i + 1 < len(s):
            if c == "%":
                b += s[i + 1] == "{"
                p += s[i + 1] == "("
            i += 2
            continue
        if b:
            b += (c == "{") - (c == "}")
        if p:
            p += (c == "(") - (c == ")")
        i += 1
    return b, p


def bracket_run(case, ctx):
    """all strings of up to 5 (6) tokens: open brackets are counted as RPM does when it looks for the end of a definition; a conditional expansion is split into body, prefix and suffix that add up to the text"""
    for w in words(BRACKETS, 0, 3):
        s = "".join(case) + "".join(w)
        same(count_brackets(s), ref_brackets(s), "open brackets", string=s)
        for t in (s, "%{?x:" + s + "}", "%{!?x:" + s + "}"):
            body, prefix, suffix = split_conditional_macro_expansion(t)
            same(prefix + body + suffix, t, "parts of the text", string=t)
            balanced = not re.search(r"[{}\\()%]", s)
            if balanced and t != s:
                same((body, prefix, suffix), (s, t[: len(t) - len(s) - 1], "}"), "parts of a conditional expansion", string=t)
            if not t.startswith("%{"):
                same((prefix, suffix), ("", ""), "prefix and suffix of plain text", string=t)
        ctx.step()
    ctx.state(case)


SPACES = [
    FnSpace("locations", location_cases, location_run),
    FnSpace("brackets", bracket_cases, bracket_run),
]
