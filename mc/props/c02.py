"""C02 -- what is in memory and what is on disk: load, edit, save, reload, autosave."""
import itertools
import os

from mc.core import FnSpace, Violation, require, same
from mc.lib import read, write
from specfile import Specfile

ASSUMPTIONS = [
    "POSIX file system; the process is the only one that writes during a call",
    "content has LF line ends (CR and CRLF are a known finding)",
]

SE = "surrogateescape"


def text_of(data):
    return data.decode("utf-8", SE)


class Model:
    """The reference: a list of LF-terminated lines, a flag for the last LF, and files."""

    def __init__(self, data, path, autosave):
        self.files = {path: data}
        self.path = path
        self.autosave = autosave
        self.load()

    def load(self):
        text = text_of(self.files[self.path])
        self.nl = text.endswith("\n")
        self.lines = (text[:-1] if self.nl else text).split("\n") if text else []

    def text(self):
        return "\n".join(self.lines) + ("\n" if self.nl else "")

    def save(self):
        self.files[self.path] = self.text().encode("utf-8", SE)

    def left_view(self):
        if self.autosave:
            self.save()


BODY = b"Name: test\nVersion: 1\nRelease: 1\nSummary: s\nLicense: l\n\n%description\nd\n%build\nb"
INITIAL = {
    "plain": BODY + b"\n",
    "no newline": BODY,
    "blank end": BODY + b"\n\n \n\n",
    "not utf-8": BODY + b" \xff\xc3\x28\n",
}
EXTERNAL = BODY.replace(b"Version: 1", b"Version: 7") + b"\n\n\xfe external"


class Boom(Exception):
    pass


def op_append(spec, m, ctx):
    with spec.lines() as lines:
        lines.append("x")
    m.lines.append("x")
    m.left_view()


def op_version(spec, m, ctx):
    i = next(i for i, l in enumerate(m.lines) if l.startswith("Version: "))
    v = m.lines[i][len("Version: "):]
    spec.version = v + ".2"
    m.lines[i] = f"Version: {v}.2"
    m.left_view()


def op_raise(spec, m, ctx):
    try:
        with spec.sections() as sections:
            sections.build.append("y")
            raise Boom()
    except Boom:
        pass
    else:
        raise Violation("an exception raised inside a view was swallowed")
    m.lines.append("y")
    m.left_view()


def op_nested(spec, m, ctx):
    with spec.sections() as sections:
        with spec.tags() as tags:
            tags.license.value = tags.license.value + "+"
        sections.build.append("\xe9\x0c z")
    i = next(i for i, l in enumerate(m.lines) if l.startswith("License: "))
    m.lines[i] += "+"
    m.lines.append("\xe9\x0c z")
    m.left_view()


def op_read(spec, m, ctx):
    spec.version, spec.expanded_name, str(spec), repr(spec)
    with spec.sections():
        pass
    if m.autosave:
        # a view that changes nothing may or may not write the file
        actual = read(m.path)
        mem = m.text().encode("utf-8", SE)
        require(actual in (m.files[m.path], mem), "reading changed the file to something else", actual=actual)
        m.files[m.path] = actual


def op_save(spec, m, ctx):
    spec.save()
    m.save()


def op_reload(spec, m, ctx):
    spec.reload()
    m.load()


def op_auto(spec, m, ctx):
    spec.autosave = m.autosave = not m.autosave


def op_path(spec, m, ctx):
    other = os.path.join(os.path.dirname(m.path), "b.spec" if m.path.endswith("a.spec") else "a.spec")
    spec.path = other
    require(str(spec.path) == other, "path not changed")
    m.path = other
    if other not in m.files:
        # reload() needs something to read
        m.save()
        spec.save()


def op_external(spec, m, ctx):
    write(m.path, EXTERNAL)
    m.files[m.path] = EXTERNAL


def op_external_newline(spec, m, ctx):
    data = m.files[m.path]
    data = data[:-1] if data.endswith(b"\n") else data + b"\n"
    write(m.path, data)
    m.files[m.path] = data


def op_pop(spec, m, ctx):
    if m.lines[-1] == "%build":
        return
    with spec.lines() as lines:
        lines.pop()
    m.lines.pop()
    m.left_view()


def op_with(spec, m, ctx):
    with spec as s:
        require(s is spec, "with specfile as s: s is a different object")
        op_append(spec, m, ctx)
    m.save()


def op_with_raise(spec, m, ctx):
    try:
        with spec:
            op_version(spec, m, ctx)
            raise Boom()
    except Boom:
        pass
    else:
        raise Violation("an exception raised inside `with specfile:` was swallowed")
    m.save()


def op_bad_save(spec, m, ctx):
    spec.path = os.path.join(os.path.dirname(m.path), "missing", "x.spec")
    for call in (spec.save, spec.reload):
        try:
            call()
        except OSError:
            pass
        else:
            raise Violation(f"{call.__name__}() with an unusable path did not fail")
    spec.path = m.path


def op_unencodable(spec, m, ctx):
    auto, spec.autosave = spec.autosave, False
    with spec.lines() as lines:
        lines.append("\ud800")
    try:
        spec.save()
    except UnicodeError:
        pass
    else:
        raise Violation("content that can't be encoded was saved")
    with spec.lines() as lines:
        lines.pop()
    spec.autosave = auto


OPS = {
    f.__name__[3:]: f
    for f in (
        op_append, op_version, op_raise, op_nested, op_read, op_save, op_reload, op_auto, op_path, op_external, op_external_newline, op_pop,
        op_with, op_with_raise, op_bad_save, op_unencodable,
    )
}


def history_cases(tier):
    n = 3 if tier == "quick" else 4
    for k in range(n + 1):
        for ops in itertools.product(OPS, repeat=k):
            for init in INITIAL:
                for autosave in (False, True):
                    if k == n and (init, autosave) not in (("plain", False), ("no newline", True)):
                        continue
                    yield {"init": init, "autosave": autosave, "ops": list(ops)}


def history_run(case, ctx):
    """every sequence of up to N operations (edits through views, save, reload, autosave toggle, path change, foreign write, context exit, exceptions, failing saves): after each one memory and all files equal the model's"""
    d = ctx.fresh_dir()
    path = os.path.join(d, "a.spec")
    write(path, INITIAL[case["init"]])
    spec = Specfile(path, autosave=case["autosave"])
    m = Model(INITIAL[case["init"]], path, case["autosave"])
    same(str(spec), m.text(), "the loaded content differs from the file")
    for op in case["ops"]:
        OPS[op](spec, m, ctx)
        ctx.step()
        same(str(spec), m.text(), f"the content in memory is wrong after {op}")
        for p, data in m.files.items():
            same(read(p), data, f"{os.path.basename(p)} is wrong after {op}")
        same(sorted(os.listdir(d)), sorted(os.path.basename(p) for p in m.files), f"stray or missing files after {op}")
        ctx.state(
            m.text(), sorted((os.path.basename(p), b) for p, b in m.files.items()), os.path.basename(m.path), m.autosave
        )


# --- every byte ------------------------------------------------------------------------

UNITS = [b"a", b"\n", b" ", b"\xff", b"\xc3", b"\xa9", b"\x0c", b"\xe2\x80\xa8", b"\xc2\x85", b"\x00", b"#"]
PLACES = {"end": b"%s", "body": b"%s\n%%files\n"}


def byte_cases(tier):
    n = 3 if tier == "quick" else 4
    for k in range(n + 1):
        for t in itertools.product(range(len(UNITS)), repeat=k):
            for place in PLACES:
                yield [place, list(t)]
    for b in range(256):
        if b not in b"\r%":
            for place in PLACES:
                yield [place, {"byte": b}]


def byte_run(case, ctx):
    """every byte and every sequence of up to N byte units at the end of a file / in a section: load, save, edit elsewhere and save, reload are byte exact"""
    place, t = case
    unit = bytes([t["byte"]]) if isinstance(t, dict) else b"".join(UNITS[i] for i in t)
    data = BODY + b"\n" + PLACES[place] % unit
    d = ctx.fresh_dir()
    path = os.path.join(d, "a.spec")
    write(path, data)
    spec = Specfile(path)
    same(str(spec), text_of(data), "the loaded content differs from the file")
    spec.save()
    ctx.step()
    same(read(path), data, "save() without changes changed the file")
    with spec.lines() as lines:
        lines[4] = "License: m"
    spec.save()
    ctx.step()
    changed = data.replace(b"License: l", b"License: m")
    same(read(path), changed, "an edit of one line changed something else")
    other = Specfile(path)
    same(str(other), str(spec), "loading again gives different content")
    spec.reload()
    ctx.step()
    same(str(spec), text_of(changed), "reload() gives different content")
    ctx.state(place, unit)


# --- every small change is saved ---------------------------------------------------------

PIECES = ["", " ", "a", "b", "ab", "A"]


def contents(tier):
    return [list(w) for k in range(3 if tier == "quick" else 4) for w in itertools.product(PIECES, repeat=k)]


def change_cases(tier):
    for before in contents(tier):
        for view in ("lines", "section", "attribute", "with"):
            yield {"before": before, "view": view, "tier": tier}


def change_run(case, ctx):
    """every change of a section body of up to 2 (3 in thorough) lines into another, however small (moved line breaks, white space, case): saved when the view is left with autosave, when the Specfile is left as a context, and by save()"""
    d = ctx.fresh_dir()
    path = os.path.join(d, "a.spec")
    start = BODY.decode().split("\n")
    start = start[: start.index("%build") + 1]
    before, view = case["before"], case["view"]

    def data(body):
        return ("\n".join(start + body) + "\n").encode()

    write(path, data(before))
    spec = Specfile(path, autosave=view != "with")
    for after in contents(case["tier"]):
        for body in (after, before):
            if view == "lines":
                with spec.lines() as lines:
                    lines[len(start) :] = body
            elif view == "section":
                with spec.sections() as sections:
                    sections.build[:] = body
            elif view == "attribute":
                with spec.sections() as sections:
                    sections.build = body
            else:
                with spec:
                    with spec.sections() as sections:
                        sections.build.data = list(body)
            ctx.step()
            same(read(path), data(body), "the file does not have the new content", body=body)
        if view == "lines":
            # lost in the meantime
            write(path, data(after))
            with spec.lines() as lines:
                lines.append("z")
            ctx.step()
            same(read(path), data(before + ["z"]), "the file does not have the new content after it was changed by someone else")
            with spec.lines() as lines:
                lines.pop()
    ctx.state(before, view)


def specific_cases(tier):
    for data in ("CRLF", "CR"):
        yield data


def specific_run(case, ctx):
    """line ends other than LF"""
    d = ctx.fresh_dir()
    path = os.path.join(d, "a.spec")
    data = (BODY + b"\n").replace(b"\n", b"\r\n") if case == "CRLF" else BODY + b" a\rb\n"
    write(path, data)
    Specfile(path).save()
    ctx.step()
    same(read(path), data, "save() without changes changed the file")


SPACES = [
    FnSpace("histories", history_cases, history_run),
    FnSpace("bytes", byte_cases, byte_run),
    FnSpace("changes", change_cases, change_run),
    FnSpace("specific", specific_cases, specific_run),
]
