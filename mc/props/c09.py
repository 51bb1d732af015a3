"""C09 -- changelogs: what is read is what RPM reads, edits stay local, new entries are complete."""
import contextlib
import datetime
import itertools
import os
import shutil
import time

import rpm

from mc.core import FnSpace, Violation, require, same
from mc.lib import HEADER, TAIL, Oracle, load, write
from specfile.changelog import Changelog, ChangelogEntry, guess_packager
from specfile.exceptions import SpecfileException
from specfile.sections import Section
from specfile.specfile import Specfile

ASSUMPTIONS = [
    "RPM 4.18.2 (the installed bindings) defines the meaning of dates and entries",
    "an entry has at least one non-empty content line before the next header",
]

# header -> (text, EVR, extended timestamp, padding of the day, author)
HEADERS = [
    ("* Mon Oct 18 2021 A B <a@b.c> - 1.2-3", "1.2-3", False, "", "A B <a@b.c>"),
    ("* Tue May 04 2021 A B <a@b.c> - 1:1.2~rc1-3.fc35", "1:1.2~rc1-3.fc35", False, "0", None),
    ("* Tue May  4 2021 A <a@b-c.d>", None, False, " ", None),
    ("* Thu Jul 22 12:34:45 UTC 2021 A <a@b.c> [2-1]", "2-1", True, "", None),
    ("* Thu Jul 01 09:08:07 CEST 2021 A <a@b.c> (3:2-1):", "3:2-1", True, "0", None),
    ("* Thu Jul  1 23:59:59 CEST 2021 A <a@b.c> 0-0.1", "0-0.1", True, " ", None),
    ("*  Fri   Jan 15 2021 A", None, False, "", None),
    ("* garbage", None, False, "", None),
    ("*", None, False, "", None),
    ("* Sun Feb 28 2021 A <a@b.c> - %{version}-%{release}  ", "%{version}-%{release}", False, "", None),
    ("* Wed Dec 31 2021 A <a@b.c> - 1", None, False, "", None),
]

# everything else a changelog may contain
OTHERS = ["- text", "  more - 1.2-3", "", "  ", "# comment", "- %%{dist} %{version}", "%if 0", "\t* nested", "x*"]


def H(i):
    return HEADERS[i][0]


# --- reading -------------------------------------------------------------------------


def reference(lines):
    """(leading lines, [(header, content, trailing blank lines)]) in file order."""
    lead, entries = [], []
    for line in lines:
        new = line.startswith("*") and (not entries or any(l.strip() for l in entries[-1][1]))
        if new:
            entries.append((line, []))
        elif entries:
            entries[-1][1].append(line)
        else:
            lead.append(line)
    out = []
    for header, body in entries:
        n = len(body)
        while n and not body[n - 1].strip():
            n -= 1
        out.append((header, body[:n], body[n:]))
    return lead, out


def read_cases(tier):
    full = HEADERS_ALL + OTHERS
    for k in range(0, 5):
        yield from (list(t) for t in itertools.product(full, repeat=k))
    small = [H(0), H(7), "- text", "", " ", "x"]
    for k in range(5, 8 if tier == "quick" else 9):
        yield from (list(t) for t in itertools.product(small, repeat=k))
    # long runs of blank and content lines
    for n in range(0, 40):
        for pad in ("", " ", "- x"):
            yield [pad] * n + [H(0), "- a"] + [pad] * n + [H(1), "- b"] + [pad] * n


HEADERS_ALL = [h[0] for h in HEADERS]
INFO = {h[0]: h for h in HEADERS}
WIDE = "* Tue May   4 2021 A <a@b.c> - 1-1"
INFO[WIDE] = (WIDE, "1-1", False, "  ", None)


def read_run(lines, ctx):
    """every changelog of up to 4 of 20 line shapes, and longer ones of 6: entries, oldest first, against a reference splitter; attributes of known headers; writing back"""
    ctx.step()
    changelog = Changelog.parse(Section("changelog", data=list(lines)))
    lead, entries = reference(lines)
    same([(e.header, e.content) for e in changelog], [(h, c) for h, c, _ in reversed(entries)], "entries (oldest first)")
    same(changelog.get_raw_section_data(), list(lines), "writing the changelog back changes it")
    same([str(e) for e in changelog], ["".join(l + "\n" for l in [h] + (c or [""])) for h, c, _ in reversed(entries)], "text of the entries")
    same(str(changelog).split("\n"), "\n".join("".join(l + "\n" for l in [h] + (c or [""])) for h, c, _ in entries).split("\n"), "text of the changelog (newest first)")
    for e in changelog:
        info = INFO.get(e.header)
        if info:
            same(e.evr, info[1], "EVR", header=e.header)
            same(e.extended_timestamp, info[2], "extended timestamp", header=e.header)
            same(e.day_of_month_padding, info[3], "padding of day of month", header=e.header)
    ctx.state(len(lead), tuple((len(c), len(f)) for _, c, f in entries))


# --- EVR in headers --------------------------------------------------------------------

EVRS = ["1-1", "0:1-1", "12:1.2.3-4.fc40", "1~rc1-0.1", "1^git-1", "1_2+b-3", "%{version}-%{release}", "%{?epoch:%{epoch}:}%{version}-1%{?dist}", "1.0-1-2"]
NO_EVRS = ["", "1.0", "text", "foo:", "(1)", "<a@b-c.d>", "<x-y@z>"]
AUTHORS = ["A", "A B <a@b.c>", "Jean-Luc P <j-l@p-q.org>", "A - B <a@b>", "Ünï Cödé <u@c>"]
DATES = ["Mon Oct 18 2021", "Fri Oct 01 2021", "Fri Oct  1 2021", "Fri Oct 1 2021", "Fri Oct 01 01:02:03 CEST 2021", "Sun Oct 31 23:59:59 +0100 2021", "Fri Oct   1 2021", "Fri Oct  01 2021", "Mon Oct  18 2021", "Fri Oct   1 01:02:03 UTC 2021"]


def header_cases(tier):
    for d, a in itertools.product(DATES, AUTHORS):
        for e in EVRS:
            for pre in (" ", " - ", " -  "):
                for lb, rb in (("", ""), ("[", "]"), ("(", ")")):
                    for colon in ("", ":"):
                        for ws in ("", " ", "\t"):
                            yield {"header": f"* {d} {a}{pre}{lb}{e}{rb}{colon}{ws}", "evr": e, "date": d}
        for e in NO_EVRS:
            if not e and a[-1] != ">":
                continue
            yield {"header": f"* {d} {a} {e}", "evr": None, "date": d}
            yield {"header": f"* {d} {a} - {e} ", "evr": None, "date": d}


def header_run(case, ctx):
    """every header of date x author x EVR notation: EVR, timestamp kind and padding"""
    ctx.step()
    e = ChangelogEntry(case["header"], ["- x"])
    same(e.evr, case["evr"], "EVR", header=case["header"])
    same(e.extended_timestamp, case["date"].count(":") == 2, "extended timestamp", header=case["header"])
    day = case["date"][len("Fri Oct ") :]
    pad = " " * (len(day) - len(day.lstrip(" "))) + ("0" if day.lstrip(" ").startswith("0") else "")
    same(e.day_of_month_padding, pad, "padding", header=case["header"])
    ctx.state(case["evr"], pad)


# --- agreement with RPM -------------------------------------------------------------------

RPM_HEADERS = [h[0] for i, h in enumerate(HEADERS) if i in (0, 1, 2, 3, 4, 5, 9, 10)]


def rpm_cases(tier):
    bodies = [["- text"], ["- a", "  b", ""], ["- a", "", "- b", "", ""]]
    # newest first, RPM refuses other orders
    for k in range(1, 5 if tier == "quick" else 7):
        for hs in itertools.combinations_with_replacement([7, 0, 3, 5, 4, 1, 2, 6], k):
            for b in range(len(bodies)) if k < 3 else (sum(hs) % len(bodies),):
                yield {"headers": list(hs), "bodies": [bodies[(b + i) % len(bodies)] for i in range(k)]}


def rpm_changelog(text, directory, macros=()):
    s = Oracle.parse(text, directory, macros)
    if s is None:
        return None
    h = s.sourceHeader
    return list(zip(h[rpm.RPMTAG_CHANGELOGTIME], h[rpm.RPMTAG_CHANGELOGNAME], h[rpm.RPMTAG_CHANGELOGTEXT]))


def rpm_run(case, ctx):
    """changelogs RPM accepts: the entries are RPM's entries, newest last"""
    lines = []
    for i, b in zip(case["headers"], case["bodies"]):
        lines += [RPM_HEADERS[i]] + b
    text = "\n".join(HEADER + TAIL + ["%changelog"] + lines) + "\n"
    want = rpm_changelog(text, ctx.fresh_dir())
    if want is None:
        ctx.state("rejected by RPM")
        return
    ctx.step()
    changelog = Changelog.parse(Section("changelog", data=lines))
    same(len(changelog), len(want), "number of entries")
    for e, (when, name, body) in zip(reversed(changelog), want):
        # the trailing part of the header and the content, as RPM expands them
        plain = " ".join(e.header.split())
        name = " ".join(name.split())
        require(rpm.expandMacro(plain).endswith(name), "RPM reads another author", header=e.header, rpm=name)
        same([l for l in "\n".join(e.content).split("\n")], body.split("\n"), "RPM reads another text", header=e.header)
        day = datetime.datetime.fromtimestamp(when, datetime.timezone.utc).strftime("%b %d %Y").split()
        parts = plain.split()
        if parts[4].count(":") == 2:
            continue  # converted to UTC by RPM
        same([parts[2], int(parts[3]), parts[4]], [day[0], int(day[1]), day[2]], "date")
    ctx.state(tuple(case["headers"]), len(want))


# --- edits ------------------------------------------------------------------------------

UNITS = [
    [H(0), "- a"],
    [H(3), "- b", "  c", ""],
    [H(2), "", "- d", "", " ", ""],
    [H(7), "x", "\t"],
]
LEADS = [[], [""], ["# lead", ""]]
NEW = ("* Mon Jan 03 2022 N <n@n> - 9-9", ["- new", "", "- 2"])


def edit_cases(tier):
    for lead in range(len(LEADS)):
        for k in range(0, 5 if tier == "quick" else 6):
            for u in itertools.product(range(len(UNITS)), repeat=k):
                for op in edit_ops(k):
                    yield {"lead": lead, "units": list(u), "ops": [op]}
    for k in range(0, 3):
        for u in itertools.product(range(len(UNITS)), repeat=k):
            for op in edit_ops(k):
                for op2 in edit_ops(k):
                    yield {"lead": 1, "units": list(u), "ops": [op, op2]}


def edit_ops(k):
    yield ["append"]
    yield ["extend"]
    yield ["clear"]
    for i in range(-k - 1, k + 2):
        yield ["insert", i]
    for i in range(-k, k):
        yield ["del", i]
        yield ["pop", i]
        yield ["header", i]
        yield ["content", i]
        yield ["replace", i]
        if i >= 0:
            yield ["remove", i]
    for sl in ([0, 2, None], [None, None, -1], [1, None, None], [None, None, 2], [-2, None, None]):
        yield ["delslice"] + sl
    yield ["reverse"]


def new_entry():
    return ChangelogEntry(NEW[0], NEW[1], [""])


def apply(target, op, make, model):
    if op[0] == "append":
        target.append(make())
    elif op[0] == "extend":
        target.extend([make(), make()])
    elif op[0] == "clear":
        target.clear()
    elif op[0] == "insert":
        target.insert(op[1], make())
    elif op[0] == "del":
        del target[op[1]]
    elif op[0] == "pop":
        target.pop(op[1])
    elif op[0] == "delslice":
        del target[op[1] : op[2] : op[3]]
    elif op[0] == "reverse":
        target.reverse()
    elif op[0] == "replace":
        target[op[1]] = make()
    elif op[0] == "remove":
        target.remove(target[op[1]])
    elif op[0] == "header":
        if model:
            target[op[1]] = (NEW[0], target[op[1]][1])
        else:
            target[op[1]].header = NEW[0]
    elif op[0] == "content":
        if model:
            target[op[1]] = (target[op[1]][0], NEW[1])
        else:
            target[op[1]].content = list(NEW[1])


def edit_run(case, ctx):
    """every changelog of up to 4 (5) entries x every edit (and pairs): the sequence of entries is what a list would give, oldest first, also after writing and reading back; leading lines stay; only blank lines are added or dropped between entries"""
    lines = list(LEADS[case["lead"]])
    for u in case["units"]:
        lines += UNITS[u]
    section = Section("changelog", data=list(lines))
    changelog = Changelog.parse(section)
    lead, entries = reference(lines)
    model = [(h, c) for h, c, _ in reversed(entries)]
    for op in case["ops"]:
        k = len(model)
        if op[0] in ("del", "pop", "header", "content", "replace", "remove") and not -k <= op[1] < k:
            return
        apply(changelog, op, new_entry, False)
        apply(model, op, lambda: NEW, True)
        ctx.step()
        same([(e.header, e.content) for e in changelog], model, f"entries after {op}", lines=lines)
        raw = changelog.get_raw_section_data()
        relead, reread = reference(raw)
        same([(h, c) for h, c, _ in reversed(reread)], model, f"entries after {op}, written and read back", raw=raw, lines=lines)
        again = Changelog.parse(Section("changelog", data=list(raw)))
        same([(e.header, e.content) for e in again], model, f"entries after {op}, parsed again", raw=raw)
        same([l for l in relead if l.strip()], [l for l in lead if l.strip()], "leading lines", raw=raw, lines=lines)
        require(relead[: len(lead)] == lead, "the leading lines changed", raw=raw, lines=lines)
    if len(case["ops"]) == 1 and op[0] in ("append", "insert", "header", "content", "replace"):
        # all other lines stay, in order
        keep = list(lines)
        if op[0] in ("header", "content", "replace"):
            h, c, f = list(reversed(entries))[op[1]]
            at = len(lead)
            for hh, cc, ff in entries[: len(entries) - 1 - (op[1] % len(entries))]:
                at += 1 + len(cc) + len(ff)
            if op[0] == "header":
                want = lines[:at] + [NEW[0]] + lines[at + 1 :]
            elif op[0] == "content":
                want = lines[: at + 1] + NEW[1] + lines[at + 1 + len(c) :]
            else:
                want = lines[:at] + [NEW[0]] + NEW[1] + [""] + lines[at + 1 + len(c) + len(f) :]
        else:
            i = op[1] if op[0] == "insert" else len(entries)
            i = max(0, i + len(entries)) if i < 0 else min(i, len(entries))
            at = len(lead)
            for hh, cc, ff in entries[: len(entries) - i]:
                at += 1 + len(cc) + len(ff)
            want = lines[:at] + [NEW[0]] + NEW[1] + [""] + lines[at:]
        same(raw, want, "lines that have nothing to do with the edit changed", op=op, lines=lines)
    if len(case["ops"]) == 1 and op[0] in ("del", "delslice"):
        # of the blank lines following a removed entry only one is removed with it
        n = len(entries)
        gone = {op[1] % n} if op[0] == "del" else set(range(n)[op[1] : op[2] : op[3]])
        want = list(lead)
        for k, (h, c, f) in enumerate(entries):
            want += f[1:] if n - 1 - k in gone else [h] + c + f
        same(raw, want, "lines that have nothing to do with the edit changed", op=op, lines=lines)
    ctx.state(tuple(raw))


# --- filtering -----------------------------------------------------------------------------

FILTER_EVRS = ["0.9-1", "1.0~rc1-1", "1.0-1", "1.0-1.fc35", "1.00-2", "1.10-1", "1:0.1-1"]
BOUNDS = [None, "0.9", "0.9-1", "1.0~rc1-1", "1.0", "1.0-1", "1.0-1.5", "1.0-2", "1.5-1", "1.10-1", "0:1.10-1", "1:0.1-1", "2:1-1", "0"]


def key(evr):
    epoch, sep, rest = evr.partition(":")
    if not sep:
        epoch, rest = "0", evr
    v, _, r = rest.partition("-")
    return epoch, v, r


def le(a, b):
    return rpm.labelCompare(key(a), key(b)) <= 0


def filter_cases(tier):
    n = len(FILTER_EVRS)
    for k in range(0, 5):
        for t in itertools.combinations_with_replacement(range(n), k):
            for since, until in itertools.product(BOUNDS, repeat=2):
                yield {"evrs": [FILTER_EVRS[i] for i in t], "since": since, "until": until}
    for k in range(1, 4):
        for t in itertools.product([None, "1.0-1", "1.10-1", "1-2-3"], repeat=k):
            if None in t or "1-2-3" in t:
                for since, until in itertools.product(BOUNDS[:6], repeat=2):
                    yield {"evrs": list(t), "since": since, "until": until}
    for k in range(2, 5):
        for t in itertools.product(["1.0-1", None, "1.10-1", "1:0.1-1"], repeat=k):
            for since, until in itertools.product([None, "0.1", "1.0-1", "1.5-1", "1:0.1-1", "3:1-1"], repeat=2):
                yield {"evrs": list(t), "since": since, "until": until}


def filter_run(case, ctx):
    """every changelog of up to 4 entries x every pair of bounds: exactly the entries RPM's comparison puts between the bounds, if the entries are in order, otherwise those from the first one not older than the lower bound to the last one not newer than the upper bound"""
    ctx.step()
    changelog = Changelog(
        [ChangelogEntry(f"* Mon Oct 18 2021 A <a@b>{' - ' + e if e else ''}", [f"- {i}"]) for i, e in enumerate(case["evrs"])]
    )
    before = [(e.header, e.content) for e in changelog]
    got = [e.content[0] for e in changelog.filter(since=case["since"], until=case["until"])]
    same([(e.header, e.content) for e in changelog], before, "filtering changed the changelog")
    ordered = None not in case["evrs"] and "1-2-3" not in case["evrs"] and all(le(a, b) for a, b in zip(case["evrs"], case["evrs"][1:]))
    if not ordered:
        # the stretch between the outermost matching entries; no (valid) EVR is like version 0
        evrs = [e or "0" for e in case["evrs"]]
        if "1-2-3" in evrs:
            if case["since"] is None and case["until"] is None:
                same(got, [f"- {i}" for i in range(len(before))], "filtering without bounds drops entries")
            ctx.state("no EVR", len(got))
            return
        first = [i for i, e in enumerate(evrs) if case["since"] is None or le(case["since"], e)]
        last = [i for i, e in enumerate(evrs) if case["until"] is None or le(e, case["until"])]
        want = [f"- {i}" for i in range(first[0], last[-1] + 1)] if first and last else []
        same(got, want, "entries between the outermost ones within the bounds")
        ctx.state(tuple(case["evrs"]), tuple(want))
        return
    want = [
        f"- {i}"
        for i, e in enumerate(case["evrs"])
        if (case["since"] is None or le(case["since"], e)) and (case["until"] is None or le(e, case["until"]))
    ]
    same(got, want, "entries between the bounds")
    ctx.state(tuple(case["evrs"]), tuple(want))


# --- assembling -----------------------------------------------------------------------------

MONTHS = ["Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"]
DAYS = ["Mon", "Tue", "Wed", "Thu", "Fri", "Sat", "Sun"]


def assemble_cases(tier):
    start, n = datetime.date(2019, 12, 1), 800 if tier == "quick" else 4000
    for i in range(n):
        d = start + datetime.timedelta(days=i)
        for pad in ("0", " ", "", " 0"):
            yield {"date": [d.year, d.month, d.day], "pad": pad, "evr": ["1-1", None, "2:1-3"][i % 3]}
            if i % 7 == 0:
                for t in ([0, 0, 0], [9, 8, 7], [23, 59, 59]):
                    for tz in (None, 0, 120, -330):
                        yield {"date": [d.year, d.month, d.day], "time": t, "tz": tz, "pad": pad, "evr": "1-1"}
                    yield {"date": [d.year, d.month, d.day], "time": t, "tz": None, "pad": pad, "evr": "1-1", "local": "WST12"}
                    yield {"date": [d.year, d.month, d.day], "time": t, "tz": 60, "pad": pad, "evr": "1-1", "local": "FAR-14"}


@contextlib.contextmanager
def local_zone(zone):
    """Runs the code in another local time zone."""
    if zone is None:
        yield
        return
    saved = os.environ.get("TZ")
    try:
        os.environ["TZ"] = zone
        time.tzset()
        yield
    finally:
        if saved is None:
            del os.environ["TZ"]
        else:
            os.environ["TZ"] = saved
        time.tzset()


def assemble_run(case, ctx):
    """every day of two (eleven) years, with and without time and zone, in three local time zones, x every padding: the header says that date, and RPM reads it as such"""
    ctx.step()
    y, m, d = case["date"]
    if "time" in case:
        tz = None if case["tz"] is None else datetime.timezone(datetime.timedelta(minutes=case["tz"]))
        stamp = datetime.datetime(y, m, d, *case["time"], tzinfo=tz)
        zone = stamp.strftime("%Z") or "UTC"
        clock = " %02d:%02d:%02d %s" % (*case["time"], zone)
    else:
        stamp, clock = datetime.date(y, m, d), ""
    content = ["- a", "- b"]
    with local_zone(case.get("local")):
        e = ChangelogEntry.assemble(stamp, "N <n@n>", content, case["evr"], day_of_month_padding=case["pad"])
    content.append("later")
    same(e.content, ["- a", "- b"], "content")
    pad = case["pad"]
    day = f"{pad[:-1]}{d:02d}" if pad.endswith("0") else f"{pad}{d}"
    evr = f" - {case['evr']}" if case["evr"] else ""
    same(e.header, f"* {DAYS[stamp.weekday()]} {MONTHS[m - 1]} {day}{clock} {y:04d} N <n@n>{evr}", "header")
    same(e.evr, case["evr"], "EVR")
    same(e.extended_timestamp, bool(clock), "extended timestamp", header=e.header)
    ctx.state(m, d, pad, bool(clock))


# --- adding entries to spec files -----------------------------------------------------------

VERSIONS = {
    "plain": (["Version: 1.2", "Release: 3"], "1.2-3"),
    "dist": (["Version: 1.2", "Release: 3%{?dist}"], "1.2-3"),
    "epoch": (["Epoch: 4", "Version: 1.2", "Release: 3%{?dist}.1"], "4:1.2-3.1"),
    "macros": (["%global mv 7", "%global rel 2", "Version: %{mv}.0", "Release: %rel%dist"], "7.0-2"),
}
SECTIONS = {
    "none": [],
    "empty": [["%changelog"]],
    "one": [["%changelog", H(0), "- old"]],
    "zero": [["%changelog", H(0), "- old", "", H(1), "- older"]],
    "space": [["%changelog", H(2), "- old", "", H(10), "- older"]],
    "ext": [["%changelog", H(4), "- old", "", H(0), "- older"]],
    "ext2": [["%changelog", H(0), "- old", "", H(4), "- older"]],
    "auto": [["%changelog", "%autochangelog"]],
    "auto2": [["%changelog", "%{?x:%{autochangelog}}"]],
    "autoc": [["%changelog", "# %autochangelog", " \t# %autochangelog", H(0), "- old %%autochangelog"]],
    "autolook": [["%changelog", H(0), "- %{autochangelogs} %autochangelog_"]],
    "lead": [["%changelog", "# lead", "", H(0), "- old"]],
    "wide": [["%changelog", WIDE, "- old", ""]],
    "upper": [["%CHANGELOG  ", H(0), "- old"]],
    "two": [["%if 1"], ["%changelog", H(4), "- old"], ["%else"], ["%changelog", H(0), "- other", "%endif"]],
    "twoauto": [["%if 1"], ["%changelog", H(0), "- old"], ["%else"], ["%changelog", "%autochangelog", "%endif"]],
}
ARGS = {
    "entry": ["- one", ["- one"], ["- one", "  two", "- %%x"]],
    "author": ["N N", None],
    "email": [None, "n@n-n.org"],
    "timestamp": [[2022, 1, 3], [2022, 1, 3, 4, 5, 6], [2021, 11, 25], None],
    "evr": [None, "9-9", "%{version}-0.%{release}"],
}


def add_cases(tier):
    for v in VERSIONS:
        for s in SECTIONS:
            for e, a, m, t, r in itertools.product(*(range(len(x)) for x in ARGS.values())):
                if tier == "quick" and v != "epoch" and (e != 2 or m != 1 or a != 0):
                    continue
                yield {"version": v, "section": s, "args": [e, a, m, t, r], "times": 1}
            yield {"version": v, "section": s, "args": [2, 0, 1, 0, 0], "times": 2}
            # it is another day than in UTC in one of these time zones
            for zone in ("WST12", "FAR-14"):
                for t in (1, 3):
                    yield {"version": v, "section": s, "args": [0, 0, 0, t, 0], "times": 1, "local": zone}


@contextlib.contextmanager
def environment(**kw):
    saved = dict(os.environ)
    try:
        for k, v in kw.items():
            if v is None:
                os.environ.pop(k, None)
            else:
                os.environ[k] = v
        yield
    finally:
        os.environ.clear()
        os.environ.update(saved)


def uses_auto(sec):
    return any(("%autochangelog" in l or "%{autochangelog}" in l) and not l.lstrip().startswith("#") and "%%" not in l and "_" not in l for l in sec)


def add_run(case, ctx):
    """every changelog layout x version scheme x combination of arguments of add_changelog_entry(): one new entry on top of every %changelog without %autochangelog, every other line untouched, and RPM reads the entry as requested"""
    vlines, evr = VERSIONS[case["version"]]
    secs = SECTIONS[case["section"]]
    args = {k: ARGS[k][i] for k, i in zip(ARGS, case["args"])}
    entry, author, email, stamp, want_evr = (args[k] for k in ARGS)
    ts = None if stamp is None else datetime.date(*stamp) if len(stamp) == 3 else datetime.datetime(*stamp)
    head = HEADER[:1] + vlines + HEADER[3:] + TAIL
    text = "\n".join(head + [l for s in secs for l in s]) + "\n"
    d = ctx.fresh_dir()
    spec = load(ctx, text)
    # the macro dist is defined by the system here, the entry must not contain it
    begin = datetime.datetime.now(datetime.timezone.utc)
    with environment(RPM_PACKAGER="Env P <e@p>"), local_zone(case.get("local")):
        for _ in range(case["times"]):
            spec.add_changelog_entry(entry, author=author, email=email, timestamp=ts, evr=want_evr)
            ctx.step()
    end = datetime.datetime.now(datetime.timezone.utc)
    days = {begin.date(), end.date()}
    who = "Env P <e@p>" if author is None else author + (f" <{email}>" if email else "")
    full = evr if want_evr is None else "9-9" if want_evr == "9-9" else f"{evr.split(':')[-1].split('-')[0]}-0.{evr.rsplit('-', 1)[1]}"
    body = [entry] if isinstance(entry, str) else entry
    got = str(spec).split("\n")
    want, at = list(head), len(head)
    same(got[:at], want, "lines before the changelog changed")
    for sec in secs:
        if not sec[0].lower().startswith("%changelog") or uses_auto(sec):
            same(got[at : at + len(sec)], sec, "a section that must not change changed", text=text, after=str(spec))
            at += len(sec)
            continue
        lead, entries = reference(sec[1:])
        # header line and leading lines stay
        same(got[at : at + 1 + len(lead)], sec[: 1 + len(lead)], "the beginning of the section changed", after=str(spec))
        at += 1 + len(lead)
        for n in range(case["times"]):
            header = got[at]
            parts = header.split()
            require(header.endswith(f" {who} - {full}"), "author or EVR of the new entry", header=header, author=who, evr=full)
            extended = bool(ts is not None and len(stamp) > 3)
            if ts is None and entries:
                extended = INFO[entries[0][0]][2]
            e = ChangelogEntry(header, [])
            same(e.extended_timestamp, extended, "kind of timestamp", header=header)
            year = parts[6] if extended else parts[4]
            if ts is not None:
                same(
                    (parts[1], parts[2], int(parts[3]), int(year)),
                    (DAYS[ts.weekday()], MONTHS[ts.month - 1], ts.day, ts.year),
                    "date of the new entry",
                    header=header,
                )
                if extended:
                    same(parts[4:6], ["04:05:06", "UTC"], "time of the new entry", header=header)
            elif not extended:
                require(
                    any((x.day, x.year, MONTHS[x.month - 1]) == (int(parts[3]), int(year), parts[2]) for x in days),
                    "the new entry is not dated today",
                    header=header,
                )
            else:
                # local time or UTC, but it has to be said which one
                offset = {"UTC": 0, "WST": -12, "FAR": 14}[parts[5]]
                require(parts[5] == "UTC" or case.get("local", "").startswith(parts[5]), "time zone of the new entry", header=header)
                clock = datetime.datetime.strptime(" ".join([parts[2], parts[3], year, parts[4]]), "%b %d %Y %H:%M:%S")
                clock -= datetime.timedelta(hours=offset)
                require(
                    begin.replace(microsecond=0, tzinfo=None) <= clock <= end.replace(tzinfo=None), "the new entry is not dated now", header=header
                )
            pads = [INFO[h][3] for h, _, _ in entries]
            pad = max(pads, key=len) if pads else "0"
            if ts is not None and ts.day < 10:
                same(e.day_of_month_padding, pad, "padding of day of month", header=header)
            same(got[at + 1 : at + 1 + len(body)], body, "content of the new entry", after=str(spec))
            at += 1 + len(body)
            if entries or n < case["times"] - 1:
                same(got[at], "", "no empty line after the new entry", after=str(spec))
                at += 1
        rest = sec[1 + len(lead) :]
        same(got[at : at + len(rest)], rest, "existing entries changed", after=str(spec))
        at += len(rest)
    same(got[at:], [""], "extra lines", after=str(spec))
    auto = any(s[0].lower().startswith("%changelog") and uses_auto(s) for s in secs)
    same(spec.has_autochangelog, auto, "has_autochangelog", text=text)
    # RPM reads the new entry
    if "two" not in case["section"] and secs and not auto and case["section"] not in ("empty",):
        mine = rpm_changelog(str(spec), d, [("dist", "")])
        old = rpm_changelog(text, d, [("dist", "")])
        if mine is not None and old is not None:
            same(mine[case["times"] :], old, "RPM reads other old entries")
            when, name, txt = mine[0]
            same(name, f"{who} - {full}", "RPM reads another author")
            same(txt, "\n".join(l.replace("%%", "%") for l in body), "RPM reads another text")
            if ts is not None:
                w = datetime.datetime.fromtimestamp(when, datetime.timezone.utc)
                same(w.date(), ts if len(stamp) == 3 else ts.date(), "RPM reads another date")
    ctx.state(case["section"], case["version"], tuple(case["args"]))


# --- packager ---------------------------------------------------------------------------


def packager_cases(tier):
    if shutil.which("git") is None:
        gits = [None]
    else:
        gits = [None, ["G N", "g@n"], ["G N", None], [None, "g@n"]]
    for env in (None, "E P <e@p>", ""):
        for macro in (None, "M P <m@p>"):
            for git in gits:
                yield {"env": env, "macro": macro, "git": git}
    for git in gits:
        for login in ("daemon", "nosuchuser", "with a full name", "without a full name"):
            for path in (None, "/nonexistent"):
                yield {"env": None, "macro": None, "git": git, "login": login, "path": path}


def packager_run(case, ctx):
    """every combination of packager sources: the first one in the documented order wins"""
    import pwd

    ctx.step()
    d = ctx.fresh_dir()
    login = case.get("login") or "root"
    if login.startswith("with"):
        named = [u.pw_name for u in pwd.getpwall() if bool(u.pw_gecos) == (login == "with a full name") and u.pw_gecos != u.pw_name]
        login = (sorted(named) or ["root"])[0]
    conf = os.path.join(d, "gitconfig")
    lines = ["[user]"]
    if case["git"]:
        lines += [f"\t{k} = {v}" for k, v in zip(("name", "email"), case["git"]) if v]
    write(conf, "\n".join(lines) + "\n")
    Oracle.reset([("packager", case["macro"])] if case["macro"] else [])
    os.chdir(d)
    with environment(RPM_PACKAGER=case["env"], GIT_CONFIG_GLOBAL=conf, GIT_CONFIG_SYSTEM=os.devnull, GIT_CONFIG_NOSYSTEM="1", HOME=d, GIT_CEILING_DIRECTORIES=d, LOGNAME=login, PATH=case.get("path") or os.environ.get("PATH")):
        got = guess_packager()
        text = "\n".join(HEADER + TAIL + ["%changelog", "* Mon Jan 01 2024 A A <a@a> - 1-1", "- a"]) + "\n"
        path = os.path.join(d, "p.spec")
        write(path, text)
        macros = [("packager", case["macro"])] if case["macro"] else []
        # parsing resets the macros of RPM, so the macro is passed to it
        spec = Specfile(path, macros=macros)
        try:
            spec.add_changelog_entry("- new")
        except SpecfileException:
            require(not got, "the packager is known, but the entry was refused", packager=got)
            same(str(spec), text, "a refused entry changed the spec file")
        else:
            require(got, "an entry without an author was added")
            new = str(spec).split("\n")
            at = new.index("%changelog") + 1
            require(new[at].endswith(f" {got} - 1-1"), "author of the new entry", header=new[at], author=got)
            same(new[:at] + new[at + 3 :], text.split("\n"), "other lines changed")
    if case["env"] is not None:
        want = case["env"]
    elif case["macro"]:
        want = case["macro"]
    else:
        name, email = (None, None) if case.get("path") else case["git"] or (None, None)
        if not name:
            name = login
            if name != "nosuchuser":
                name = pwd.getpwnam(name).pw_gecos or name
        want = f"{name} <{email}>" if email else name
    same(got, want, "packager")
    Oracle.reset()
    ctx.state(got)


SPACES = [
    FnSpace("lines", read_cases, read_run),
    FnSpace("headers", header_cases, header_run),
    FnSpace("rpm", rpm_cases, rpm_run),
    FnSpace("edits", edit_cases, edit_run),
    FnSpace("filter", filter_cases, filter_run),
    FnSpace("assemble", assemble_cases, assemble_run),
    FnSpace("add", add_cases, add_run),
    FnSpace("packager", packager_cases, packager_run),
]
