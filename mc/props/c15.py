"""C15 -- EVR, NEVR and NEVRA: reading, writing, ordering and hashing."""
import itertools

import rpm

from mc.core import FnSpace, require, same
from mc.lib import words
from specfile.exceptions import SpecfileException
from specfile.utils import EVR, NEVR, NEVRA

ASSUMPTIONS = ["RPM 4.18.2 (labelCompare) defines the order of versions; an independent implementation of the documented algorithm is checked along"]

# --- reference comparison, written from RPM's documentation ------------------------------------


def tokens(s):
    out, i = [], 0
    while i < len(s):
        c = s[i]
        if c in "~^":
            out.append(c)
            i += 1
        elif c.isascii() and c.isalnum():
            j = i
            while j < len(s) and s[j].isascii() and s[j].isalnum() and s[j].isdigit() == c.isdigit():
                j += 1
            out.append(int(s[i:j]) if c.isdigit() else s[i:j])
            i = j
        else:
            i += 1
    return out


def ref_vercmp(a, b):
    for x, y in itertools.zip_longest(tokens(a), tokens(b)):
        if x == y:
            continue
        if x == "~" or y == "~":
            return -1 if x == "~" else 1
        if x == "^" or y == "^":
            if x is None or y is None:
                return -1 if x is None else 1
            return -1 if x == "^" else 1
        if x is None or y is None:
            return -1 if x is None else 1
        if isinstance(x, int) != isinstance(y, int):
            return 1 if isinstance(x, int) else -1
        return -1 if x < y else 1
    return 0


def ref_evrcmp(a, b):
    if a[0] != b[0]:
        return -1 if a[0] < b[0] else 1
    return ref_vercmp(a[1] or "0", b[1] or "0") or ref_vercmp(a[2], b[2])


# --- order and hash -----------------------------------------------------------------------------

ATOMS = ["0", "1", "01", "10", "a", "b", "A", ".", "~", "^", "_"]


def version_list(tier):
    out = ["".join(w) for w in words(ATOMS, 0, 2 if tier == "quick" else 3)]
    out += ["".join(w) for w in words(["0", "1", "a", ".", "~", "^"], 3, 3 if tier == "quick" else 4)]
    out += ["1.0.0", "1.0~rc1", "1.0^git1", "1.0~rc1^git1", "1.0^git1~pre", "20240101", "1.2.3a", "1.2.3.a", "1.2.3_a", "0x1", "1.a.1", "00", "1..0", "9" * 25, "9" * 24 + "8", "1é0", "1+0"]
    return sorted(set(out))


def order_cases(tier):
    yield from version_list(tier)


def check_pair(cls, kw, a, b, ea, eb):
    x, y = cls(epoch=ea[0], version=ea[1], release=ea[2], **kw), cls(epoch=eb[0], version=eb[1], release=eb[2], **kw)
    c = ref_evrcmp(ea, eb)
    same(((x < y), (x <= y), (x == y), (x != y), (x >= y), (x > y)), (c < 0, c <= 0, c == 0, c != 0, c >= 0, c > 0), "comparison", a=ea, b=eb)
    if c == 0:
        same(hash(x), hash(y), "equal values have different hashes", a=ea, b=eb)
        same(len({x, y}), 1, "size of a set of two equal values", a=ea, b=eb)


def order_run(case, ctx):
    """every pair of versions and of releases: all six comparisons agree with RPM and with the reference, equal values hash alike"""
    a = case
    for b in VERSIONS:
        c = ref_vercmp(a or "0", b or "0")
        same(c, rpm.labelCompare(("0", a or "0", ""), ("0", b or "0", "")), "the reference disagrees with RPM", a=a, b=b)
        check_pair(EVR, {}, a, b, (0, a, "1"), (0, b, "1"))
        if a and b:
            check_pair(EVR, {}, a, b, (1, "1", a), (1, "01", b))
        check_pair(NEVR, {"name": "n"}, a, b, (0, a, "1"), (0, b, "1"))
        check_pair(NEVRA, {"name": "n", "arch": "noarch"}, a, b, (0, a, "1"), (0, b, "1"))
        ctx.step()
    ctx.state(a)


VERSIONS = version_list("quick")

# --- all components ---------------------------------------------------------------------------

EPOCHS = [0, 1, 2, 10]
VS = ["1", "01", "1.0", "1.1", "2", "1~a", ""]
RS = ["", "1", "1.fc40", "2", "01"]
NAMES = ["a", "b", "a-b"]
ARCHES = ["noarch", "x86_64"]


def component_cases(tier):
    n = len(EPOCHS) * len(VS) * len(RS)
    for i in range(n):
        yield i


def component_run(case, ctx):
    """every pair of (epoch, version, release), names, architectures and types: epoch before version before release; different names or architectures are different and unordered, different types never equal"""
    evrs = list(itertools.product(EPOCHS, VS, RS))
    a = evrs[case]
    for b in evrs:
        ctx.step()
        check_pair(EVR, {}, a, b, a, b)
        for n1, n2 in itertools.product(NAMES, NAMES):
            for r1, r2 in itertools.product([None] + ARCHES, repeat=2):
                if n1 == n2 and r1 == r2:
                    if n1 == "a":
                        check_pair(*((NEVR, {"name": n1}) if r1 is None else (NEVRA, {"name": n1, "arch": r1})), a, b, a, b)
                    continue
                if (a, b) != (a, a) and (n1, n2) not in (("a", "b"), ("a", "a"), ("a-b", "a")):
                    continue
                x, y = build(n1, a, r1), build(n2, b, r2)
                require(not (x == y) and x != y, "different packages are equal", a=str(x), b=str(y))
                for op in ("lt", "le", "ge", "gt"):
                    require(unordered(x, y, op), "different packages are ordered", a=str(x), b=str(y), op=op)
    e = build_evr(a)
    for y in (build("a", a, None), build("a", a, "noarch"), str(e), None, (a,), 1):
        require(not (e == y) and e != y and not (y == e) and y != e, "equal to an object of another type", a=str(e), b=repr(y))
        for op in ("lt", "le", "ge", "gt"):
            require(unordered(e, y, op) and unordered(y, e, op), "ordered against an object of another type", a=str(e), b=repr(y))
    ctx.state(a)


def build_evr(a):
    return EVR(epoch=a[0], version=a[1], release=a[2])


def build(name, a, arch):
    kw = dict(name=name, epoch=a[0], version=a[1], release=a[2])
    return NEVR(**kw) if arch is None else NEVRA(arch=arch, **kw)


def unordered(x, y, op):
    import operator

    try:
        getattr(operator, op)(x, y)
    except TypeError:
        return True
    return False


# --- text -------------------------------------------------------------------------------------

TV = ["1", "1.0", "0", "1~rc1", "1^g.1", "1.2.3_4", "a1", "1:2"]
TR = ["", "1", "1.fc40", "0.1.rc1.el9_2", "1.x86_64", "1.noarch.2"]
TE = [0, 1, 12, 2024]
TN = ["a", "a-b", "a-1", "a-1-2", "a.noarch", "perl-A1.2", "gtk2+", "a--b", "x_1", "a-1:2"]
ALLARCH = ["noarch", "x86_64", "i386", "i686", "armv7hl", "armv7hnl", "alpha", "alphaev5", "ppc64le", "ppc64", "s390", "s390x", "aarch64", "sparc", "sparcv9", "sh4", "sh4a", "riscv64", "ia32e", "IP", "mips64r6el", "athlon", "amd64"]


def text_cases(tier):
    for e in range(len(TE)):
        for v in range(len(TV)):
            for r in range(len(TR)):
                yield [e, v, r]


def text_run(case, ctx):
    """every combination of name, epoch, version, release and architecture: written in RPM's notation (no zero epoch), and read back component by component"""
    e, v, r = TE[case[0]], TV[case[1]], TR[case[2]]
    label = (f"{e}:" if e else "") + v + (f"-{r}" if r else "")
    x = EVR(epoch=e, version=v, release=r)
    same(str(x), label, "text of EVR")
    if ":" not in v or e:
        y = EVR.from_string(label)
        same((y.epoch, y.version, y.release), (e, v, r), "EVR read from " + label)
        same(type(y), EVR, "type")
        ctx.step()
    for n in TN:
        x = NEVR(name=n, epoch=e, version=v, release=r)
        same(str(x), n + "-" + label, "text of NEVR")
        ambiguous = ":" in v and not e
        if r and not ambiguous:
            y = NEVR.from_string(str(x))
            same((y.name, y.epoch, y.version, y.release, type(y)), (n, e, v, r, NEVR), "NEVR read from " + str(x))
            ctx.step()
        for a in ALLARCH:
            x = NEVRA(name=n, epoch=e, version=v, release=r, arch=a)
            same(str(x), n + "-" + label + "." + a, "text of NEVRA")
            if r and not ambiguous:
                y = NEVRA.from_string(str(x))
                same((y.name, y.epoch, y.version, y.release, y.arch, type(y)), (n, e, v, r, a, NEVRA), "NEVRA read from " + str(x))
                same(y == x, True, "equality of the original and what was read")
                ctx.step()
        if "-" not in n and not r and not ambiguous:
            y = NEVR.from_string(str(NEVR(name=n, epoch=e, version=v)))
            same((y.name, y.epoch, y.version, y.release), (n, e, v, ""), "NEVR without release")
            y = NEVRA.from_string(str(NEVRA(name=n, epoch=e, version=v, release="", arch="noarch")))
            same((y.name, y.epoch, y.version, y.release, y.arch), (n, e, v, "", "noarch"), "NEVRA without release")
    ctx.state(label)


CHARS = ["1", "a", "-", ":", ".", "~", "noarch", "x86_64"]


def string_cases(tier):
    for w in words(CHARS, 0, 3 if tier == "quick" else 4):
        yield list(w)


def ref_evr(s):
    """(epoch, version, release) or None"""
    head, colon, rest = s.partition(":")
    epoch = 0
    if colon and head.isdigit() and rest and not rest.startswith("-"):
        epoch, s = int(head), rest
    version, dash, release = s.partition("-")
    if not version or "-" in release or dash and not release:
        return None
    return epoch, version, release


def ref_nevr(s):
    """the split with the shortest name that leaves a valid EVR"""
    for i, c in enumerate(s):
        if c == "-" and i:
            e = ref_evr(s[i + 1:])
            if e:
                return (s[:i],) + e
    return None


def ref_nevra(s):
    for a in ("noarch", "x86_64"):
        if s.endswith("." + a):
            n = ref_nevr(s[: -len(a) - 1])
            if n:
                return n + (a,)
    return None


def string_run(case, ctx):
    """every string of 3 to 6 (7 in thorough) tokens: either split into its components as RPM's notation prescribes or rejected with SpecfileException"""
    prefix = "".join(case)
    for w in itertools.product(CHARS, repeat=3):
        s = prefix + "".join(w)
        for cls, ref, attrs in ((EVR, ref_evr, ("epoch", "version", "release")), (NEVR, ref_nevr, ("name", "epoch", "version", "release")), (NEVRA, ref_nevra, ("name", "epoch", "version", "release", "arch"))):
            want = ref(s)
            try:
                x = cls.from_string(s)
            except SpecfileException:
                got = None
            else:
                got = tuple(getattr(x, a) for a in attrs)
            same(got, want, f"{cls.__name__}.from_string()", string=s)
            ctx.step()
        ctx.state(s)


def arch_cases(tier):
    yield from ["noarch", "x86_64", "", "x86", "X86_64", "x86_64 ", "any", "src", "noarch.x86_64", "i386\n"]


def arch_run(case, ctx):
    """architecture names: a known one is accepted, any other rejected with SpecfileException"""
    try:
        NEVRA(name="a", version="1", release="1", arch=case)
        got = True
    except SpecfileException:
        got = False
    if case == "i386\n":
        return
    same(got, case in ("noarch", "x86_64"), "acceptance of an architecture", arch=case)
    ctx.step()
    ctx.state(case)


SPACES = [
    FnSpace("order", order_cases, order_run),
    FnSpace("components", component_cases, component_run),
    FnSpace("text", text_cases, text_run),
    FnSpace("strings", string_cases, string_run),
    FnSpace("arch", arch_cases, arch_run),
]
