"""C22 -- the attributes of Specfile read and write the tags in effect."""
import itertools

import rpm

from mc.core import FnSpace, Violation, require, same
from mc.lib import Oracle, load

ASSUMPTIONS = ["a tag is in effect if RPM uses it; of several tags with the same name at most one is", "%dist is .el9 (or whatever the macro files of the system say)"]

# attribute, tag, value used by default, RPM header tag
TAGS = {
    "name": ("Name", "test", rpm.RPMTAG_NAME),
    "version": ("Version", "1.0", rpm.RPMTAG_VERSION),
    "raw_release": ("Release", "1%{?dist}", rpm.RPMTAG_RELEASE),
    "summary": ("Summary", "s u", rpm.RPMTAG_SUMMARY),
    "license": ("License", "MIT", rpm.RPMTAG_LICENSE),
    "epoch": ("Epoch", "2", rpm.RPMTAG_EPOCH),
    "url": ("URL", "https://x/%{name}", rpm.RPMTAG_URL),
}
OPTIONAL = ("epoch", "url")

# form: lines with {t} for the tag and {v} for its default value, index of the line in effect (None: there is none)
FORMS = {
    "plain": (["{t}: {v}"], 0),
    "spaced": (["# {t}: no", "{t} :\t{v} \t"], 1),
    "upper": (["{T}:{v}"], 0),
    "macro": (["%global m_{l} {v}", "{t}: %{m_{l}}"], 1),
    "late": (["{t}: %{?undefined_{l}}{v}", "%global undefined_x{l} 7"], 0),
    "second": (["%if 0", "{t}: 9", "%else", "{t}: {v}", "%endif"], 3),
    "first": (["%if 1", "{t}: {v}", "%else", "{t}: 9", "%endif"], 1),
    "arch": (["%ifarch %{_target_cpu}", " # c", "{t}: {v}", "%endif", "%ifnarch %{_target_cpu}", "{t}: 9", "%endif"], 2),
    "braces": (["%{!?undefined_{l}:{t}: {v}}", "%dnl {t}: 8"], 0),
    "lines": (["{t}: {v}%{?undefined_{l}:", "}"], 0),
    "shell": (["{t}: {v}%(echo", ")"], 0),
    "absent": ([], None),
    "off": (["%if 0", "{t}: 9", "%endif"], None),
}


def lines_of(attr, form):
    t, v, _ = TAGS[attr]
    return [l.replace("{t}", t).replace("{T}", t.upper()).replace("{v}", v).replace("{l}", attr) for l in FORMS[form][0]]


def allowed(attr, form):
    if form in ("absent", "off"):
        return attr in OPTIONAL
    return True


def cases(tier):
    pairs = [(a, f) for a in TAGS for f in FORMS if allowed(a, f)]
    for p in pairs:
        yield [list(p)]
    for p, q in itertools.combinations(pairs, 2):
        if p[0] == q[0]:
            continue
        if tier == "quick" and FORM_INDEX[p[1]] % 2 != FORM_INDEX[q[1]] % 2 and "off" not in (p[1], q[1]):
            continue
        yield [list(p), list(q)]


FORM_INDEX = {f: i for i, f in enumerate(FORMS)}
NEW = {"name": "new-name", "version": "2.%{nil}1", "raw_release": "3%{?dist}.1", "summary": "another  one", "license": "GPL-2.0 and (MIT)", "epoch": "7", "url": "http://y/%{version}#z"}
TAIL = ["", "%description", "URL: no", "", "%package sub", "Summary: sub", "URL: no", "License: no", "%description sub", "d", "%changelog"]


def expected(attr, rs):
    h = rs.packages[0].header
    value = h[TAGS[attr][2]]
    if value is None:
        return None
    return value.decode() if isinstance(value, bytes) else str(value)


def verify(spec, lines, place, values, ctx, what):
    """place: attribute -> number of the first line of the tag in effect (or None)"""
    text = "\n".join(lines) + "\n"
    same(str(spec), text, f"{what}: wrong content")
    rs = Oracle.parse(text, ctx.fresh_dir())
    require(rs is not None, "harness: RPM refuses the spec file", lines=lines)
    for attr in TAGS:
        ctx.step()
        same(getattr(spec, attr), values[attr], f"{what}: {attr}")
        if place[attr] is None and values[attr] is None:
            same(getattr(spec, "expanded_" + attr), None, f"{what}: expanded_{attr}")
        elif place[attr] is not None:
            same((getattr(spec, "expanded_" + attr) or "").strip(), expected(attr, rs), f"{what}: expanded_{attr}")
    same(str(spec), text, f"{what}: content after reading")


def run(case, ctx):
    """every preamble in which the tags have 13 forms (plain, in true and false branches, in conditional macro expansions, multi-line, absent): every attribute gives the value of the tag in effect, its expanded_ variant what RPM has in the header, and an assignment changes the value of this tag and nothing else"""
    forms = {a: "plain" for a in TAGS}
    forms.update({a: f for a, f in case})
    lines, place, values, ends, tails = [], {}, {}, {}, {}
    for attr in TAGS:
        own = lines_of(attr, forms[attr])
        i = FORMS[forms[attr]][1]
        if i is None:
            place[attr] = None
            # a tag that is not in effect is better than none
            values[attr] = "9" if own else None
        else:
            place[attr] = len(lines) + i
            head, sep, value = own[i].partition(":")
            form = forms[attr]
            if form == "braces":
                # the first colon belongs to the macro
                value = value.partition(":")[2]
                value, tails[attr] = value[:-1], "}"
            if form in ("lines", "shell"):
                value += "\n" + own[i + 1]
                ends[attr] = place[attr] + 1
            else:
                ends[attr] = place[attr]
            stripped = value.strip(" \t")
            tails[attr] = value[len(value.rstrip(" \t")):] + tails.get(attr, "")
            values[attr] = stripped
        lines += own
    lines += TAIL
    spec = load(ctx, "\n".join(lines) + "\n")
    verify(spec, lines, place, values, ctx, "loaded")
    for attr in reversed(list(TAGS)):
        new = NEW[attr]
        if values[attr] is None:
            try:
                setattr(spec, attr, new)
            except AttributeError:
                ctx.step()
                same(str(spec), "\n".join(lines) + "\n", f"content after an assignment to {attr}, which is not there")
                continue
            raise Violation(f"{attr} was set although there is no such tag")
        setattr(spec, attr, new)
        if place[attr] is None:
            i = next(i for i, l in enumerate(lines) if l == f"{TAGS[attr][0]}: 9")
            lines[i] = f"{TAGS[attr][0]}: {new}"
        else:
            i = place[attr]
            first = lines[i]
            k = first.index(values[attr].split("\n")[0], first.index(":") + 1 if forms[attr] != "braces" else first.index(":", first.index(":") + 1))
            lines[i : ends[attr] + 1] = [first[:k] + new + tails[attr]]
            for other in place:
                if place[other] is not None and place[other] > i:
                    place[other] -= ends[attr] - i
                    ends[other] -= ends[attr] - i
            ends[attr] = i
        values[attr] = new
        ctx.step()
        same(str(spec), "\n".join(lines) + "\n", f"content after an assignment to {attr}")
    verify(spec, lines, place, values, ctx, "changed")
    ctx.state(case)


SPACES = [FnSpace("attributes", cases, run)]
