"""C17 -- macro options: lossless tokenization, RPM's word splitting, getopt semantics of edits."""
import itertools

from mc.core import FnSpace, Violation, require, same
from specfile.exceptions import OptionsException, SpecfileException
from specfile.options import Options, TokenType

ASSUMPTIONS = [
    "poptParseArgvString() (transcribed below) defines word splitting",
    "options occur as separate words (no clusters such as -qn), option arguments do not start with a dash",
]


# --- word splitting --------------------------------------------------------------

def popt(s):
    """poptParseArgvString() from popt; None if it reports an error."""
    words, cur, quote = [], "", None
    i = 0
    while i < len(s):
        c = s[i]
        if c == quote:
            quote = None
        elif quote:
            if c == "\\":
                i += 1
                if i == len(s):
                    return None
                c = s[i]
                if c != quote:
                    cur += "\\"
            cur += c
        elif c.isspace():
            if cur:
                words.append(cur)
                cur = ""
        elif c in "\"'":
            quote = c
        else:
            if c == "\\":
                i += 1
                if i == len(s):
                    return None
                c = s[i]
            cur += c
        i += 1
    # (an unterminated quotation is accepted by popt and rejected here: callers skip it)
    if quote:
        return None
    if cur:
        words.append(cur)
    return words


MACROS = ["%{a b}", "%(echo \"x y\")", "%{?c:'}", "%%"]


def string_cases(tier):
    plan = [("an-\\\"' ", 7 if tier == "quick" else 8), ("ab-\\\"' \t%1", 5 if tier == "quick" else 6)]
    for alphabet, n in plan:
        for k in range(n + 1):
            for t in itertools.product(alphabet, repeat=k):
                yield "".join(t)
    syms = list("a-\\\"' ") + MACROS
    for k in range((5 if tier == "quick" else 6) + 1):
        for t in itertools.product(syms, repeat=k):
            yield "".join(t)


def string_run(s, ctx):
    """every option string over quotes, backslashes, blanks and macros: converting the tokens back gives the string; without macros the words are popt's"""
    ctx.step()
    has_macro = "%" in s
    words = None if has_macro else popt(s)
    try:
        tokens = Options.tokenize(s)
    except SpecfileException as e:
        require(
            isinstance(e, OptionsException) or has_macro, "wrong exception", error=repr(e)
        )
        require(has_macro or words is None, "a splittable string is rejected", string=s)
        ctx.state("rejected")
        return
    require(has_macro or words is not None, "a string that cannot be split is accepted", string=s)
    same(str(Options(tokens)), s, "the tokens do not convert back to the string", tokens=[str(t) for t in tokens])
    if not has_macro:
        got, cur = [], ""
        for t in tokens + [None]:
            if t is None or t.type == TokenType.WHITESPACE:
                if cur:
                    got.append(cur)
                cur = ""
            else:
                cur += t.value
        same(got, words, "words differ from poptParseArgvString()", string=s)
    ctx.state(tuple(t.type.name for t in tokens))


# --- getopt semantics of reads and edits ---------------------------------------------

OPTSTRING = "qn:p:T"
FLAGS, ARGS = "qT", "np"
# (text, meaning)
WORDS = [
    ("-q", ("q", True)),
    ("-T", ("T", True)),
    ("-n foo", ("n", "foo")),
    ("-n 'a b'", ("n", "a b")),
    ("-p1", ("p", 1)),
    ("-p 2", ("p", 2)),
    ("-nbar", ("n", "bar")),
    ('-n "x"', ("n", "x")),
    ("-n%{name}-%(echo a b)", ("n", "%{name}-%(echo a b)")),
    ("x.tar", (None, "x.tar")),
    ("7", (None, 7)),
    ('"-- y"', (None, "-- y")),
    ("a\\ b", (None, "a b")),
    ('"c d"', (None, "c d")),
    ("'e  f'", (None, "e  f")),
    ("-z", ("?", "z")),
    ("-n foo-", ("n", "foo-")),
]
# an option at the very end of the line that lacks its argument
MISSING = {"-n": ("n", True), "-p": ("p", True)}
# a quoted word starting with a dash is an unknown option for getopt, not a positional
WORDS = [w for w in WORDS if not w[0].startswith('"--')]
VALUES = {
    "n": ["new", "two words", 'qu"ote', "it's", 5, "%{name}", "back\\slash", "x\ty", "%{?a:b}c d", 'b "q" d'],
    "p": [0, 3, "12"],
    "q": [True],
    "T": [True],
}


def word_sets(maxlen):
    for k in range(maxlen + 1):
        for t in itertools.product(range(len(WORDS)), repeat=k):
            yield t


def unique_options(t):
    names = [WORDS[i][1][0] for i in t if WORDS[i][1][0] not in (None, "?")]
    return len(names) == len(set(names))


def edit_cases(tier):
    n = 3 if tier == "quick" else 4
    for t in word_sets(n):
        yield {"words": list(t), "op": ["read"], "sep": " "}
    for t in word_sets(n):
        if not unique_options(t):
            continue
        for sep in (" ", " \t ") if len(t) < n else (" ",):
            for op in ops_for(t):
                yield {"words": list(t), "op": op, "sep": sep}
    # white space around the words, an option without its argument at the end
    for t in word_sets(2):
        if not unique_options(t):
            continue
        for pad, last in (([" ", ""], ""), (["", "  "], ""), (["\t ", " "], "-n"), (["", ""], "-p")):
            if last and last[1] in [WORDS[i][1][0] for i in t]:
                continue
            yield {"words": list(t), "op": ["read"], "sep": " ", "pad": pad, "last": last}
            for op in ops_for(t, small=True):
                yield {"words": list(t), "op": op, "sep": " ", "pad": pad, "last": last}
    # two edits in a row
    for t in word_sets(n - 1):
        if not unique_options(t):
            continue
        for op in ops_for(t, small=True):
            for op2 in ops_for(t, small=True):
                if op2[0].startswith("pos") and op[0].startswith("pos"):
                    continue
                yield {"words": list(t), "op": op, "op2": op2, "sep": " "}


def ops_for(t, small=False):
    npos = sum(WORDS[i][1][0] is None for i in t)
    for name in "qnpT":
        yield ["del", name]
        for v in VALUES[name][: 2 if small else None]:
            yield ["set", name, v]
        yield ["set", name, None]
    for name in FLAGS:
        yield ["set", name, False]
    for i in range(npos):
        yield ["posset", i, "zz"]
        yield ["posdel", i]
        if not small:
            yield ["posset", i, "z z"]
            yield ["posset", i - npos, 4]
            yield ["posdel", i - npos]
    for i in range(-npos - 1, npos + 2):
        yield ["posins", i, "zz"]
        if not small:
            yield ["posins", i, "z z"]
            yield ["posins", i, 9]
    if not small:
        yield ["posassign", ["k", "l m"]]
        yield ["posassign", []]
        for a, b, c in ((0, 2, 1), (None, None, -1), (None, None, 2), (-1, 0, -1), (1, None, 1)):
            yield ["posslice", a, b, c]
        for a, b in ((0, 0), (0, 1), (1, None), (None, None), (2, 1), (-1, None)):
            for values in ([], ["k"], ["k", 4, "l m"]):
                yield ["posresize", a, b, values]
        for a, b, c in ((None, None, -1), (None, None, 2), (1, None, 2), (-1, None, -2)):
            for k in range(4):
                yield ["posextended", a, b, c, ["k", 4, "l m"][:k]]


class Model:
    """A parsed command line: options (last one wins) and positional arguments."""

    def __init__(self, t, last=""):
        self.opts = dict([MISSING[last]] if last else [])
        self.pos = []
        self.unknown = []
        for i in t:
            name, value = WORDS[i][1]
            if name is None:
                self.pos.append(value)
            elif name == "?":
                self.unknown.append(value)
            else:
                self.opts[name] = value

    def apply(self, op):
        if op[0] == "del" or op[0] == "set" and op[2] in (None, False) and op[2] != 0 or op[0] == "set" and op[2] is False:
            self.opts.pop(op[1], None)
        elif op[0] == "set":
            self.opts[op[1]] = norm(op[2])
        elif op[0] == "posset":
            self.pos[op[1]] = norm(op[2])
        elif op[0] == "posdel":
            del self.pos[op[1]]
        elif op[0] == "posins":
            self.pos.insert(op[1], norm(op[2]))
        elif op[0] == "posassign":
            self.pos = [norm(v) for v in op[1]]
        elif op[0] == "posslice":
            del self.pos[op[1] : op[2] : op[3]]
        elif op[0] == "posresize":
            self.pos[op[1] : op[2]] = op[3]
        elif op[0] == "posextended":
            self.pos[op[1] : op[2] : op[3]] = op[4]


def norm(v):
    if isinstance(v, str) and v.isdigit():
        return int(v)
    return v


def apply(o, op):
    if op[0] in ("del", "set"):
        # options are a mapping, too
        twin = Options(Options.tokenize(str(o)), OPTSTRING, DEFAULTS)
        if op[0] == "del":
            delattr(o, op[1])
            del twin[op[1]]
        else:
            setattr(o, op[1], op[2])
            twin[op[1]] = op[2]
        same(str(twin), str(o), "item access differs from attribute access", op=op)
    elif op[0] == "posset":
        o.positional[op[1]] = op[2]
    elif op[0] == "posdel":
        del o.positional[op[1]]
    elif op[0] == "posins":
        o.positional.insert(op[1], op[2])
    elif op[0] == "posassign":
        o.positional = op[1]
    elif op[0] == "posslice":
        del o.positional[op[1] : op[2] : op[3]]
    elif op[0] == "posresize":
        o.positional[op[1] : op[2]] = op[3]
    elif op[0] == "posextended":
        o.positional[op[1] : op[2] : op[3]] = op[4]


DEFAULTS = {"p": 0, "n": "default"}


def check_reads(o, m, label):
    for name in FLAGS:
        same(getattr(o, name), m.opts.get(name, False), f"{label}: flag -{name}", string=str(o))
    for name in ARGS:
        same(getattr(o, name), m.opts.get(name, DEFAULTS.get(name)), f"{label}: option -{name}", string=str(o))
        same(o[name], m.opts.get(name, DEFAULTS.get(name)), f"{label}: item {name}", string=str(o))
        v = getattr(o, name)
        same(type(v), type(m.opts.get(name, DEFAULTS.get(name))), f"{label}: type of -{name}", string=str(o))
    same(list(o.positional), m.pos, f"{label}: positional arguments", string=str(o))
    same(len(o.positional), len(m.pos), f"{label}: number of positionals")
    same(o.positional[:], m.pos, f"{label}: slice of positionals")
    for i in range(-len(m.pos), len(m.pos)):
        same(o.positional[i], m.pos[i], f"{label}: positional {i}")
    same(sorted(o), sorted(m.opts), f"{label}: iterating the options", string=str(o))
    same(len(o), len(m.opts), f"{label}: number of options", string=str(o))
    same({k: o[k] for k in o}, m.opts, f"{label}: item access", string=str(o))


def check_text(t, s, sep, op, text):
    """The exact text after one edit: nothing but the edited word and one adjoining separator changes."""
    names = [WORDS[i][1][0] for i in t]
    pos = [k for k, n in enumerate(names) if n is None]
    pieces = []
    for k, i in enumerate(t):
        pieces += [sep] * (k > 0) + [WORDS[i][0]]

    def without(ks):
        p = list(pieces)
        for k in sorted(ks, reverse=True):
            if k == 0:
                del p[0:2]
            else:
                del p[2 * k - 1 : 2 * k + 1]
        return "".join(p)

    def around(k):
        return "".join(pieces[: 2 * k]), "".join(pieces[2 * k + 1 :])

    what = "other text than the edited word (and a separator) changed"
    if op[0] == "posdel":
        same(text, without([pos[op[1]]]), what, before=s, op=op)
    elif op[0] == "posslice":
        same(text, without(pos[op[1] : op[2] : op[3]]), what, before=s, op=op)
    elif op[0] == "del" or op[0] == "set" and (op[2] is None or op[2] is False):
        same(text, without([k for k, n in enumerate(names) if n == op[1]]), what, before=s, op=op)
    elif op[0] == "posset" or op[0] == "set" and op[1] in names:
        k = pos[op[1]] if op[0] == "posset" else names.index(op[1])
        if op[0] == "set" and op[2] is True:
            same(text, s, "setting a flag that is set changed the text")
        a, b = around(k)
        require(
            text.startswith(a) and text.endswith(b) and len(text) > len(a) + len(b), what, before=s, op=op, after=text
        )
        mid = text[len(a) : len(text) - len(b)]
        require(mid == mid.strip(), what, before=s, op=op, after=text)
    elif op[0] == "set":
        require(text.startswith(s + " " * bool(s) + "-" + op[1]), "a new option is not appended to the text", before=s, op=op, after=text)
    elif op[0] == "posins":
        n = len(pos)
        at = max(0, op[1] + n) if op[1] < 0 else min(op[1], n)
        k = pos[at] if at < n else len(t)
        if k == 0:
            a, b = "", (" " + s) if s else ""
        else:
            a, b = "".join(pieces[: 2 * k - 1]) + " ", "".join(pieces[2 * k - 1 :])
        require(text.startswith(a) and text.endswith(b) and len(text) > len(a) + len(b), what, before=s, op=op, after=text)
        mid = text[len(a) : len(text) - len(b)]
        require(mid == mid.strip(), what, before=s, op=op, after=text)


def edit_run(case, ctx):
    """every command line of up to N option/positional words x every (pair of) edit(s): reads before and after equal a getopt model, also after re-tokenizing the text, and untouched words keep their spelling"""
    t = case["words"]
    last = case.get("last", "")
    s = case["sep"].join([WORDS[i][0] for i in t] + [last] * bool(last))
    if "pad" in case:
        s = case["pad"][0] + s + case["pad"][1]
    o = Options(Options.tokenize(s), OPTSTRING, DEFAULTS)
    m = Model(t, last)
    ctx.step()
    check_reads(o, m, "initial")
    same(str(o), s, "reading changed the text")
    ops = [case["op"]] + ([case["op2"]] if "op2" in case else [])
    for op in ops:
        if op[0] == "read":
            continue
        if op[0].startswith("pos") and op[0] in ("posset", "posdel"):
            if not -len(m.pos) <= op[1] < len(m.pos):
                continue
        if op[0] == "posextended":
            # Python lists decide what is refused
            try:
                m.apply(op)
            except ValueError:
                try:
                    apply(o, op)
                except ValueError:
                    same(str(o), s, "a refused assignment changed the text")
                    continue
                raise Violation("an extended slice was resized", string=s, op=op)
            apply(o, op)
        elif last and (op[0] in ("posins", "posresize", "posassign") or op[0] == "set" and op[1] not in m.opts):
            # a word behind the option would become its argument
            continue
        else:
            apply(o, op)
            m.apply(op)
        ctx.step()
        check_reads(o, m, f"after {op}")
        text = str(o)
        o2 = Options(Options.tokenize(text), OPTSTRING, DEFAULTS)
        check_reads(o2, m, f"after {op} and re-reading the text")
    if ops[0][0] != "read" and len(ops) == 1:
        # untouched words keep their spelling and order
        op = ops[0]
        text = str(o)
        kept = []
        npos = 0
        total = len(Model(t).pos)
        for i in t:
            name = WORDS[i][1][0]
            touched = False
            if name is None:
                if op[0] in ("posset", "posdel"):
                    touched = npos == op[1] % total
                elif op[0] == "posassign":
                    touched = True
                elif op[0] == "posslice":
                    touched = npos in range(total)[op[1] : op[2] : op[3]]
                elif op[0] == "posresize":
                    touched = npos in range(total)[op[1] : op[2]]
                elif op[0] == "posextended":
                    touched = npos in range(total)[op[1] : op[2] : op[3]]
                npos += 1
            elif op[0] in ("set", "del"):
                touched = name == op[1]
            if not touched:
                kept.append(WORDS[i][0])
        at = 0
        for w in kept:
            j = text.find(w, at)
            require(j >= 0, "an untouched word was respelled, moved or lost", word=w, before=s, after=text)
            at = j + len(w)
        if "pad" not in case:
            check_text(t, s, case["sep"], op, text)
    ctx.state(str(o), tuple(sorted(m.opts)), len(m.pos))


# --- invalid uses --------------------------------------------------------------------


def misuse_cases(tier):
    for t in word_sets(2):
        for op in (["set", "n", True], ["set", "n", False], ["set", "q", "x"], ["set", "q", 1], ["get", "k"], ["item", "k"], ["delitem", "k"]):
            yield {"words": list(t), "op": op}


def misuse_run(case, ctx):
    """wrong kinds of values and unknown options are refused with the documented exception and change nothing"""
    s = " ".join(WORDS[i][0] for i in case["words"])
    o = Options(Options.tokenize(s), OPTSTRING, DEFAULTS)
    op = case["op"]
    expected = {"set": OptionsException, "get": AttributeError, "item": KeyError, "delitem": KeyError}[op[0]]
    try:
        if op[0] == "set":
            setattr(o, op[1], op[2])
        elif op[0] == "get":
            getattr(o, op[1])
        elif op[0] == "item":
            o[op[1]]
        else:
            del o[op[1]]
    except expected:
        pass
    else:
        raise Violation("an invalid use was accepted", string=s, op=op, after=str(o))
    ctx.step()
    same(str(o), s, "a refused operation changed the text")
    ctx.state(op[0], len(s))


SPACES = [
    FnSpace("strings", string_cases, string_run),
    FnSpace("edits", edit_cases, edit_run),
    FnSpace("misuse", misuse_cases, misuse_run),
]
