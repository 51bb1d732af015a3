"""C12 -- parsing a spec file leaves nothing behind: no files, no environment, no descriptors, whatever fails."""
import bz2
import errno
import gc
import gzip
import itertools
import lzma
import os
import resource
import stat
import sys
import tempfile
import zipfile

import rpm

from mc.core import FnSpace, Violation, require, same
from mc.lib import Oracle, write
from specfile import Specfile
from specfile.exceptions import RPMException, SpecfileException

ASSUMPTIONS = [
    "faults are injected one at a time: a failing open or removal, a failing RPM call, a limit on open files or file size",
    "a file whose removal is made to fail may stay; nothing else may",
]

# --- the world: everything parsing may touch lives below one scratch directory -------------------


class World:
    def __init__(self, ctx):
        self.root = ctx.fresh_dir()
        for n in ("spec", "src", "outside", "tmp"):
            os.mkdir(os.path.join(self.root, n))
        self.spec = os.path.join(self.root, "spec", "test.spec")
        self.src = os.path.join(self.root, "src")
        self.outside = os.path.join(self.root, "outside")
        tempfile.tempdir = os.path.join(self.root, "tmp")

    def files(self):
        out = {}
        for base, dirs, names in os.walk(self.root):
            for n in dirs + names:
                p = os.path.join(base, n)
                s = os.lstat(p)
                rel = os.path.relpath(p, self.root)
                if stat.S_ISLNK(s.st_mode):
                    out[rel] = ("link", os.readlink(p), s.st_ino)
                elif stat.S_ISDIR(s.st_mode):
                    out[rel] = ("dir", stat.S_IMODE(s.st_mode), s.st_ino)
                else:
                    with open(p, "rb") as f:
                        out[rel] = ("file", f.read(), s.st_ino, stat.S_IMODE(s.st_mode), s.st_mtime_ns)
        return out

    def observe(self):
        gc.collect()
        fds = {}
        for n in os.listdir("/proc/self/fd"):
            try:
                fds[int(n)] = os.readlink("/proc/self/fd/" + n)
            except OSError:
                pass
        fds = {k: v for k, v in fds.items() if not v.startswith("/proc/")}
        mask = os.umask(0)
        os.umask(mask)
        return {
            "files": self.files(),
            "environment": dict(os.environ),
            "descriptors": fds,
            "stderr": os.fstat(2)[:3],
            "cwd": os.getcwd(),
            "umask": mask,
        }

    def compare(self, before, allowed=(), **detail):
        after = self.observe()
        for k in before:
            if k == "files":
                a = {p: v for p, v in after[k].items() if p not in allowed}
                for p in sorted(set(before[k]) | set(a)):
                    if p in allowed:
                        continue
                    if before[k].get(p) != a.get(p):
                        raise Violation("parsing left a trace in " + p, before=repr(before[k].get(p)), after=repr(a.get(p)), **detail)
            else:
                same(after[k], before[k], "parsing changed the " + k, **detail)


def warm_up(ctx):
    if "warm" not in ctx.store:
        ctx.store["warm"] = True
        w = World(ctx)
        write(w.spec, DOC.format(body="", prep=""))
        s = Specfile(w.spec, w.src)
        s.expand("%{name}%(echo x)")
        with s.tags() as t:
            t.version.value = "2"
        s.expanded_version


DOC = """Name: test
Version: 1
Release: 1
Summary: s
License: l
{body}
%description
d
{prep}
"""

# --- sources in every state ------------------------------------------------------------------------

NAMES = [
    "a.tar.gz",
    "http://h/p/b.tar.xz",
    "http://h/get?f=1#/c.zip",
    "%{name}-%{version}.tar.bz2",
    "sub/d.txt",
    ".hidden",
    "é.gz",
    "x=y.tar",
    "..",
    "http://h/",
    "n" * 300,
    "test.spec",
    "tilde~",
]


def base_name(location):
    n = location.replace("%{name}", "test").replace("%{version}", "1").rsplit("/", 1)[-1]
    return n


STATES = ["missing", "file", "empty", "link", "dangling", "dangling-dir", "directory", "readonly", "loop"]


def put(w, location, state, k=0):
    n = base_name(location).split("=")[-1] if "/" in location else base_name(location)
    if state == "missing" or n in ("", "..") or len(n) > 200:
        return False
    p = os.path.join(w.src, n)
    if os.path.lexists(p):
        return False
    if state == "file":
        write(p, b"precious \x1f")
    elif state == "empty":
        write(p, b"")
    elif state == "readonly":
        write(p, b"read only")
        os.chmod(p, 0o400)
    elif state == "directory":
        os.mkdir(p)
        write(os.path.join(p, "inner"), b"i")
    elif state == "link":
        t = os.path.join(w.outside, f"real{k}")
        write(t, b"linked")
        os.symlink(t, p)
    elif state == "dangling":
        os.symlink(os.path.join(w.outside, f"gone{k}"), p)
    elif state == "dangling-dir":
        os.symlink(os.path.join(w.outside, f"nodir{k}", "gone"), p)
    elif state == "loop":
        os.symlink(p, p)
    return True


def file_cases(tier):
    for n in range(len(NAMES)):
        for s in range(len(STATES)):
            for where in range(3):
                yield {"sources": [[n, s]], "where": where, "op": 0}
    pairs = range(5) if tier == "quick" else range(len(NAMES))
    for n, m in itertools.permutations(pairs, 2):
        for s, t in itertools.product(range(len(STATES)), repeat=2):
            if tier == "quick" and (n + m + s + t) % 3:
                continue
            yield {"sources": [[n, s], [m, t]], "where": 0, "op": (n + s + t) % 4}


def operate(spec, op):
    if op == 1:
        spec.expand("%{name}")
        spec.expand("%{version}", extra_macros=[("x", "1")])
    elif op == 2:
        with spec.tags() as t:
            t.version.value = "2"
        spec.expanded_version
    elif op == 3:
        with spec.lines() as lines:
            lines.append("%endif")
        try:
            spec.expanded_version
        except RPMException:
            pass


def file_run(case, ctx):
    """sources and patches of every name shape in every state on disk (missing, existing, links, dangling links, directories): loading, expanding and editing leave all files exactly as they were"""
    warm_up(ctx)
    w = World(ctx)
    tags = []
    for k, (n, s) in enumerate(case["sources"]):
        put(w, NAMES[n], STATES[s], k)
        tags.append(("Patch%d: %s" if case["where"] == 1 else "Source%d: %s") % (k, NAMES[n]))
    prep = "%prep\n%setup -q" if case["where"] == 0 else "%prep\n%patch 0 -p1" if case["where"] == 1 else ""
    write(w.spec, DOC.format(body="\n".join(tags), prep=prep))
    before = w.observe()
    try:
        spec = Specfile(w.spec, w.src)
    except RPMException:
        require(any(s not in (0, 1, 3) for _, s in case["sources"]), "a spec file with plain sources was rejected", tags=tags)
        ctx.state("rejected")
    else:
        w.compare(before, tags=tags)
        operate(spec, case["op"])
        ctx.state(case)
    ctx.step()
    w.compare(before, tags=tags)


# --- dummy sources look like real ones to RPM -------------------------------------------------------


def make_real(path):
    data = b"hello\n"
    ext = path.rsplit(".", 1)[-1]
    if ext in ("gz", "tgz"):
        with gzip.open(path, "wb") as f:
            f.write(data)
    elif ext == "bz2":
        with bz2.open(path, "wb") as f:
            f.write(data)
    elif ext == "xz":
        with lzma.open(path, "wb") as f:
            f.write(data)
    elif ext == "zip":
        with zipfile.ZipFile(path, "w") as f:
            f.writestr("x", data)
    else:
        magic = {"zst": b"\x28\xb5\x2f\xfd", "lz": b"LZIP\x01", "lrz": b"LRZI\x00", "7z": b"7z\xbc\xaf\x27\x1c"}.get(ext, b"")
        write(path, magic + b"\x00" * 20 + data)


EXTS = ["tar.gz", "gz", "tar.bz2", "tar.xz", "xz", "zip", "tar.zst", "tar.lz", "tar.lrz", "7z", "tar", "txt", "patch", "patch.gz", "patch.xz", "patch.bz2"]


def real_cases(tier):
    for e in range(len(EXTS)):
        for m in range(4):
            for f in range(4):
                yield [e, m, f]


def real_run(case, ctx):
    """every compression format x %setup, %patch, %autosetup x location notation: with the sources missing RPM's %prep is the same as with real ones present"""
    warm_up(ctx)
    e, m, f = case
    name = "src." + EXTS[e]
    location = [name, "http://h/" + name, "http://h/x?y#/" + name, "%{name}." + EXTS[e]][f]
    if f == 3:
        name = "test." + EXTS[e]
    if m == 0:
        body, prep = "Source0: " + location, "%prep\n%setup -q"
    elif m == 1:
        body, prep = "Patch3: " + location, "%prep\n%patch -P3 -p1"
    elif m == 2:
        body, prep = "Source0: x.tar\nSource1: " + location, "%prep\n%setup -q -a1"
    else:
        body, prep = "Source0: " + location + "\nPatch0: p.patch.xz", "%prep\n%autosetup -p1"
    text = DOC.format(body=body, prep=prep)
    w = World(ctx)
    real = os.path.join(w.root, "real")
    os.mkdir(real)
    for n in (name, "x.tar", "p.patch.xz"):
        make_real(os.path.join(real, n))
    o = Oracle.parse(text, real)
    require(o is not None, "RPM rejects the spec file", text=text)
    want = o.prep.replace(real, "SRC")
    del o
    write(w.spec, text)
    spec = Specfile(w.spec, w.src)
    same(spec.rpm_spec.prep.replace(w.src, "SRC"), want, "%prep with missing sources", text=text)
    spec2 = Specfile(w.spec, real)
    same(spec2.rpm_spec.prep.replace(real, "SRC"), want, "%prep with sources present", text=text)
    same(os.listdir(w.src), [], "files left in sourcedir")
    ctx.step()
    ctx.state(want)


# --- forced parsing ---------------------------------------------------------------------------------

# (tags, files needed in sourcedir, can be faked)
FORCE = [
    ("Source1: i.inc\n%include %{SOURCE1}", ["i.inc"], True),
    ("%include %{_sourcedir}/i2.inc", ["i2.inc"], True),
    ("Source2: m.macros\n%{load:%{SOURCE2}}", ["m.macros"], True),
    ("%{load:%{_sourcedir}/m2.macros}", ["m2.macros"], True),
    ("Source13: v.txt\nURL: %(cat %{?SOURCE13})", ["v.txt"], True),
    ("Source40: w.txt\nVendor: %(head -1 %SOURCE40 | cut -c1-3)", ["w.txt"], True),
    ("Source57: z.txt\nGroup: %(cat %{S:57})", ["z.txt"], True),
    ("%include OUTSIDE/x.inc", ["../outside/x.inc"], False),
    ("%include OUTSIDE/nodir/x.inc", None, False),
    ("%{load:OUTSIDE/x.macros}", ["../outside/x.macros"], False),
    ("%{load:OUTSIDE/nodir/x.macros}", None, False),
    ("Bogus tag", None, False),
    ("Source6: plain.tar.gz", [], True),
    ("%if 0\nURL: %(cat %{SOURCE9})\n%include %{_sourcedir}/never.inc\n%endif", [], True),
    ("%include %{_sourcedir}/a\\\n.inc", None, False),
    ("Packager: %(true)", None, False),
    ("%include \\\n   %{_sourcedir}/i3.inc", ["i3.inc"], True),
    (" %include  %{_sourcedir}/i4.inc \t", ["i4.inc"], True),
    ("%include %{expand:\\\n%{_sourcedir}/i5.inc}", ["i5.inc"], True),
    ("%{!?nope:%{load:%{_sourcedir}/m3.macros}}", ["m3.macros"], True),
]


def force_cases(tier):
    n = len(FORCE)
    for k in (1, 2) if tier == "quick" else (1, 2, 3):
        for c in itertools.combinations(range(n), k):
            for present in range(3):
                for force in (True, False):
                    if k == 3 and not force:
                        continue
                    yield {"parts": list(c), "present": present, "force": force}


def force_run(case, ctx):
    """every combination of up to 2 (3 in thorough) constructs that need files at parsing time, present or missing, inside and outside sourcedir, with and without force_parse: parsed (tainted if and only if something was faked) or rejected with RPMException, and no trace either way"""
    warm_up(ctx)
    w = World(ctx)
    parts = [FORCE[i] for i in case["parts"]]
    missing, hopeless = False, False
    for j, (tags, files, fake) in enumerate(parts):
        if files is None:
            hopeless = True
            continue
        for f in files:
            if case["present"] == 1 or case["present"] == 2 and j == 0:
                write(os.path.join(w.src, f), "# nothing\n" if f.endswith(("inc", "macros")) else "abc\n")
            else:
                missing = True
                hopeless |= not fake
    # only what is defined before the first failure can be referred to
    body = "\n".join(p[0] for p in parts).replace("OUTSIDE", w.outside).split("\n")
    body = "\n".join([l for l in body if l.startswith("Source")] + [l for l in body if not l.startswith("Source")])
    write(w.spec, DOC.format(body=body, prep=""))
    before = w.observe()
    ok = not hopeless and (case["force"] or not missing)
    try:
        spec = Specfile(w.spec, w.src, force_parse=case["force"])
    except RPMException as e:
        require(str(e).strip(), "the exception says nothing", body=body)
        same(True, not ok, "the spec file was rejected: " + str(e), body=body)
    else:
        same(ok, True, "the spec file was accepted", body=body)
        same(spec.tainted, missing, "tainted", body=body)
        w.compare(before, body=body)
        same(spec.expand("%{name}-%{version}"), "test-1", "expansion")
        with spec.tags() as t:
            t.version.value = "2"
        same(spec.expanded_version, "2", "version")
        same(spec.tainted, missing, "tainted after an edit", body=body)
        spec.force_parse = False
        try:
            spec.expand("x")
            rejected = False
        except RPMException:
            rejected = True
        same(rejected, missing, "rejection once force_parse is turned off", body=body)
        spec.force_parse = True
        same(spec.tainted, missing, "tainted once force_parse is turned on", body=body)
    ctx.step()
    w.compare(before, body=body)
    ctx.state(case)


# --- faults ------------------------------------------------------------------------------------------

FAULT = {"on": False, "event": None, "k": None, "n": 0, "exc": None, "root": None, "hit": None}


def hook(event, args):
    f = FAULT
    if not f["on"]:
        return
    if event == "open":
        path, mode, flags = args
        if not isinstance(path, (str, bytes)) or not isinstance(flags, int):
            return
        path = os.fsdecode(path)
        if not path.startswith(f["root"]) or not flags & (os.O_WRONLY | os.O_RDWR):
            return
        kind = "open"
    elif event in ("os.remove", "os.unlink"):
        path = os.fsdecode(args[0])
        if not path.startswith(f["root"]):
            return
        kind = "remove"
    else:
        return
    if kind != f["event"]:
        return
    f["n"] += 1
    if f["n"] - 1 == f["k"]:
        f["hit"] = path
        raise f["exc"]


class Interrupt(BaseException):
    pass


DOCS = {
    "plain": ("Source0: a.tar.gz\nSource1: b.txt\nPatch0: p.patch", "%prep\n%setup -q\n%patch 0", False),
    "existing": ("Source0: have.tar.gz\nSource1: b.txt", "%prep\n%setup -q", False),
    "force": ("Source0: a.tar.gz\nSource1: i.inc\nSource3: v.txt\n%include %{SOURCE1}\nURL: %(cat %{SOURCE3})", "", True),
    "broken": ("Source0: a.tar.gz\nBogus", "", False),
    "broken-late": ("Source0: a.tar.gz\n%{!?nope:Summary: twice}", "%prep\n%patch -P 9", False),
    "shell": ("Source0: a.tar.gz\nURL: u%(echo x >&2; echo $LANG)", "", False),
}
OPERATIONS = ["load", "edit", "expand", "view", "other"]
KINDS = (
    [("open", e) for e in ("OSError", "Interrupt")]
    + [("remove", "OSError")]
    + [("rpm-before", e) for e in ("ValueError", "MemoryError", "Interrupt")]
    + [("rpm-after", "Interrupt")]
    + [("nofile", None), ("fsize", None)]
)


def fault_cases(tier):
    for doc in DOCS:
        for op in OPERATIONS:
            for kind, exc in KINDS:
                if tier == "quick" and op in ("expand", "view", "other") and (doc in ("existing", "broken", "shell") or exc == "Interrupt"):
                    continue
                for k in range(STRIDE):
                    yield {"doc": doc, "op": op, "kind": kind, "exc": exc, "k": k, "step": STRIDE}


EXC = {
    "OSError": lambda: OSError(errno.ENOSPC, "No space left on device"),
    "Interrupt": Interrupt,
    "ValueError": lambda: ValueError("injected"),
    "MemoryError": MemoryError,
}


SIZES = [0, 5, 12, 13, 60, 200, 1000, 4096, 30000, 200000]


class BrokenRpm:
    """rpm.spec that fails at the k-th call"""

    def __init__(self, k, exc, after):
        self.real, self.k, self.exc, self.after, self.n = rpm.spec, k, exc, after, 0

    def __call__(self, *a, **kw):
        self.n += 1
        if self.n - 1 == self.k and not self.after:
            raise self.exc
        r = self.real(*a, **kw)
        if self.n - 1 == self.k:
            del r
            raise self.exc
        return r


STRIDE = 8


def fault_run(case, ctx):
    """every document x operation x kind of failure x point at which it happens (opening and removing files, calls of RPM, running out of descriptors or file size): no files, environment, descriptors or redirections stay behind, memory is intact, and the same operation works afterwards"""
    while fault_point(case, ctx) and case.get("step"):
        case = dict(case, k=case["k"] + case["step"])
        ctx.clean()


def fault_point(case, ctx):
    """Returns whether there may be further points."""
    warm_up(ctx)
    if "hook" not in ctx.store:
        sys.addaudithook(hook)
        ctx.store["hook"] = True
    w = World(ctx)
    body, prep, force = DOCS[case["doc"]]
    text = DOC.format(body=body, prep=prep)
    write(w.spec, text)
    write(os.path.join(w.src, "have.tar.gz"), b"\x1f\x8bmine")
    good = not case["doc"].startswith("broken")
    other = None
    spec = None
    if case["op"] != "load":
        if not good:
            # start from a good content, then break it in memory
            write(w.spec, DOC.format(body="", prep=""))
        spec = Specfile(w.spec, w.src, force_parse=force)
        if not good:
            with spec.lines() as lines:
                lines[:] = text.split("\n")[:-1]
    if case["op"] == "other":
        write(w.spec + ".2", DOC.format(body="%global y 7", prep=""))
        other = Specfile(w.spec + ".2", w.src)
    before = w.observe()

    def act():
        nonlocal spec
        if case["op"] == "load":
            spec = Specfile(w.spec, w.src, force_parse=force)
        elif case["op"] == "edit":
            with spec.lines() as lines:
                lines[1] = "Version: 2"
            spec.expanded_version
        elif case["op"] == "expand":
            spec.expand("%{version}", extra_macros=[("q", "1")])
        elif case["op"] == "view":
            spec.expand("%{version}", extra_macros=[("q", "2")])
            with spec.sources() as s:
                [x.expanded_filename for x in s]
            with spec.macro_definitions():
                pass
        else:
            spec.expanded_version

    FAULT.update(on=False, event=None, k=case["k"], n=0, exc=None, root=w.root, hit=None)
    real_spec = rpm.spec
    kind = case["kind"]
    soft = {}
    failed = None
    broken = None
    try:
        if kind in ("open", "remove"):
            FAULT.update(event=kind, exc=EXC[case["exc"]](), on=True)
        elif kind.startswith("rpm"):
            broken = BrokenRpm(case["k"], EXC[case["exc"]](), kind == "rpm-after")
            rpm.spec = broken
        elif kind == "nofile":
            r = resource.RLIMIT_NOFILE
            soft[r] = resource.getrlimit(r)
            used = max(int(x) for x in os.listdir("/proc/self/fd"))
            resource.setrlimit(r, (used + case["k"], soft[r][1]))
        elif kind == "fsize":
            r = resource.RLIMIT_FSIZE
            soft[r] = resource.getrlimit(r)
            resource.setrlimit(r, (SIZES[min(case["k"], len(SIZES) - 1)], soft[r][1]))
        try:
            act()
        except (Interrupt, Exception) as e:
            failed = e
    finally:
        FAULT["on"] = False
        rpm.spec = real_spec
        for r, v in soft.items():
            resource.setrlimit(r, v)
    name = type(failed).__name__
    more = {
        "nofile": case["k"] < 24,
        "fsize": case["k"] < len(SIZES) - 1,
    }.get(kind, FAULT["hit"] is not None or broken is not None and broken.n > case["k"])
    del broken
    if failed is not None:
        failed.__traceback__ = failed.__context__ = failed.__cause__ = None
    allowed = ()
    if kind == "remove" and FAULT["hit"]:
        allowed = (os.path.relpath(FAULT["hit"], w.root),)
    if kind in ("open", "remove") and good and (FAULT["hit"] is None or kind == "remove" and FAULT["hit"].startswith(w.src)):
        same(name, "NoneType", "exception without a reason", kind=kind)
    failed = None
    w.compare(before, allowed, case=case, outcome=name)
    if case["op"] == "load":
        same(os.path.exists(w.spec), True, "the spec file")
    else:
        want = text.replace("Version: 1", "Version: 2") if case["op"] == "edit" else text
        same(str(spec), want, "content in memory", outcome=name)
    for p in allowed:
        if os.path.exists(os.path.join(w.root, p)):
            os.unlink(os.path.join(w.root, p))
    ctx.step()
    # the same operation without a failure
    try:
        act()
        ok = True
    except RPMException:
        ok = False
    if case["op"] != "view" or good:
        same(ok, good, "whether the operation succeeds afterwards", case=case)
    if good:
        same(spec.expand("%{version}|%{?q}|%{?y}|%{lua:print(1)}"), ("2" if case["op"] == "edit" else "1") + "|||1", "expansion afterwards")
    if other is not None:
        same(other.expand("%{version}|%{?y}"), "1|7", "expansion of another instance afterwards")
    w.compare(before, case=case)
    ctx.state(case["doc"], case["op"], kind, name, case["k"])
    return more


# --- environment ---------------------------------------------------------------------------------------

VALUES = [None, "", "C", "cs_CZ.UTF-8"]


def env_cases(tier):
    for lang, lc in itertools.product(range(len(VALUES)), repeat=2):
        for doc in ("shell", "broken", "force", "plain"):
            for op in ("load", "edit", "view"):
                yield [lang, lc, doc, op]


def env_run(case, ctx):
    """every setting of LANG and LC_ALL x document x operation: shell expansions run in a predictable locale, and the environment comes back exactly, for Python and for child processes"""
    warm_up(ctx)
    saved = {k: os.environ.get(k) for k in ("LANG", "LC_ALL")}
    try:
        for k, v in zip(("LANG", "LC_ALL"), case[:2]):
            if VALUES[v] is None:
                os.environ.pop(k, None)
            else:
                os.environ[k] = VALUES[v]
        w = World(ctx)
        body, prep, force = DOCS[case[2]]
        write(w.spec, DOC.format(body="", prep="") if case[2] == "broken" and case[3] != "load" else DOC.format(body=body, prep=prep))
        before = w.observe()
        want = rpm.expandMacro("%(echo ${LANG-unset} ${LC_ALL-unset})")
        try:
            spec = Specfile(w.spec, w.src, force_parse=force)
            if case[3] == "edit":
                with spec.lines() as lines:
                    lines[1] = "Version: 2" if case[2] != "broken" else "Bogus"
                spec.expanded_version
            elif case[3] == "view":
                with spec.tags() as t:
                    [x.expanded_value for x in t]
            if case[2] == "shell":
                same(spec.rpm_spec.sourceHeader[rpm.RPMTAG_URL], "uC.UTF-8", "locale of a shell expansion")
        except RPMException:
            same(case[2], "broken", "rejected document")
        w.compare(before, case=case)
        same(rpm.expandMacro("%(echo ${LANG-unset} ${LC_ALL-unset})"), want, "environment of child processes")
        ctx.step()
        ctx.state(case)
    finally:
        for k, v in saved.items():
            if v is None:
                os.environ.pop(k, None)
            else:
                os.environ[k] = v


# --- errors ---------------------------------------------------------------------------------------------

ERRORS = [
    ("Bogus: x", "Unknown tag: Bogus: x"),
    ("Bogus: error: x error: y", "Unknown tag: Bogus: error: x error: y"),
    ("%error: x", None),
    ("%{error:boom}", "boom"),
    ("%{error:a error: b}", "a error: b"),
    ("Version", "Version"),
    ("%if 1", "nclosed %if"),
    ("%endif", "%endif"),
    ("%else", "%else"),
    ("URL: é\udcff%{error:é\udcff}", "é"),
    ("%{warn:warning only}\nBogus: z", "Unknown tag: Bogus: z"),
    ("Epoch: x", "x"),
    ("%{lua:error('oops')}", "oops"),
    ("BuildArch: noarch\nBuildArch", None),
    ("Requires: a >", None),
    ("%{foo", None),
]


def error_cases(tier):
    for e in range(len(ERRORS)):
        for op in ("load", "edit", "expand", "reload"):
            yield [e, op]


def error_run(case, ctx):
    """every kind of error RPM reports x operation: RPMException with RPM's message, the content in memory and on disk untouched, and a corrected content works at once"""
    warm_up(ctx)
    w = World(ctx)
    line, message = ERRORS[case[0]]
    bad = DOC.format(body=line, prep="")
    with tempfile.TemporaryFile(dir=w.outside) as tmp:
        saved = os.dup(2)
        os.dup2(tmp.fileno(), 2)
        try:
            accepted = Oracle.parse(bad, w.outside) is not None
        finally:
            os.dup2(saved, 2)
            os.close(saved)
        tmp.seek(0)
        said = [l.rstrip()[len("error:"):].strip() for l in tmp.read().decode(errors="replace").split("\n") if l.startswith("error:")]
    if accepted:
        ctx.state("accepted by RPM")
        return
    good = DOC.format(body="", prep="")
    write(w.spec, bad if case[1] == "load" else good)
    before = w.observe()
    spec = None
    try:
        if case[1] == "load":
            Specfile(w.spec, w.src)
        else:
            spec = Specfile(w.spec, w.src)
            if case[1] == "reload":
                write(w.spec, bad)
                before = w.observe()
                spec.reload()
            else:
                with spec.lines() as lines:
                    lines[5:6] = line.split("\n")
            if case[1] == "expand":
                spec.expand("%{name}")
            else:
                spec.expanded_version
    except RPMException as e:
        text = str(e)
        if message is not None:
            require(message in text, "the message of RPM is lost", message=text, expected=message)
        require(text.strip(), "the exception says nothing", line=line)
        if said and w.outside not in said[0] and "/" not in said[0]:
            same(text, said[0], "message of the exception")
    else:
        raise Violation("a content RPM rejects was accepted", line=line)
    if spec is not None:
        same(str(spec), bad, "content in memory")
        with spec.lines() as lines:
            lines[:] = good.split("\n")[:-1]
        same(spec.expand("%{name}-%{version}"), "test-1", "expansion of the corrected content")
    ctx.step()
    w.compare(before, case=case)
    ctx.state(case)


def expand_error_cases(tier):
    for e in ("%{error:boom}", "%{foo", "%(", "%{lua:error('x')}", "%[1+]", "%{expr:1+}", "%[1/0]", "%{uncompress}", "\udcff%{name}", "%{shrink:", "%{warn:w}%{name}"):
        for op in range(2):
            yield [e, op]


def expand_error_run(case, ctx):
    """every failing expression: RPMException (or what RPM gives), no trace, and the next expansion is right"""
    warm_up(ctx)
    w = World(ctx)
    write(w.spec, DOC.format(body="%global y 7", prep=""))
    spec = Specfile(w.spec, w.src)
    before = w.observe()
    try:
        spec.expand(case[0], extra_macros=[("q", "1")] if case[1] else None)
    except RPMException as e:
        str(e)
    w.compare(before, case=case)
    same(spec.expand("%{version}|%{y}|%{?q}"), "1|7|", "expansion afterwards")
    ctx.step()
    ctx.state(case)


SPACES = [
    FnSpace("files", file_cases, file_run),
    FnSpace("real", real_cases, real_run),
    FnSpace("force", force_cases, force_run),
    FnSpace("faults", fault_cases, fault_run, timeout=300),
    FnSpace("environment", env_cases, env_run),
    FnSpace("errors", error_cases, error_run),
    FnSpace("expressions", expand_error_cases, expand_error_run),
]
