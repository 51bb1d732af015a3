"""
Bounded exhaustive explorer.

A property is decided by one or more *spaces*.  A space is a finite, deterministic,
simplest-first enumeration of cases (an input word, an operation sequence, a fault
schedule); every case is executed against the real code in /repo and compared with a
reference model.  Nothing is sampled: every case of the space is run, by N forked workers
that each take a deterministic share of the enumeration.
"""
import hashlib
import json
import mmap
import os
import pickle
import shutil
import signal
import struct
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Violation(Exception):
    """The real code disagrees with the property."""

    def __init__(self, what, **detail):
        super().__init__(what)
        self.what = what
        self.detail = detail


class CaseTimeout(BaseException):
    pass


def require(cond, what, **detail):
    if not cond:
        raise Violation(what, **detail)


def same(actual, expected, what, **detail):
    if actual != expected:
        raise Violation(what, expected=expected, actual=actual, **detail)


class Space:
    """A finite set of cases and the way to decide one of them."""

    name = "space"
    doc = ""
    timeout = 30  # seconds for one case; a typical case takes milliseconds

    def cases(self, tier):
        raise NotImplementedError

    def setup(self, ctx):
        """Called once per worker process."""

    def run(self, case, ctx):
        raise NotImplementedError


class FnSpace(Space):
    def __init__(self, name, cases, run, doc="", setup=None, timeout=30):
        self.name, self._cases, self._run = name, cases, run
        self.doc = doc or (run.__doc__ or "").strip()
        self._setup = setup
        self.timeout = timeout

    def cases(self, tier):
        return self._cases(tier)

    def setup(self, ctx):
        if self._setup:
            self._setup(ctx)

    def run(self, case, ctx):
        return self._run(case, ctx)


class Ctx:
    """What a running case may use: a private scratch directory and the counters."""

    def __init__(self, scratch):
        self.scratch = scratch
        self.states = set()
        self.transitions = 0
        self.cases = 0
        self._n = 0
        self.store = {}

    def step(self, n=1):
        self.transitions += n

    def state(self, *obs):
        """Records a canonical observed state (deduplicated by hash)."""
        h = hashlib.blake2b(repr(obs).encode("utf-8", "surrogatepass"), digest_size=8)
        self.states.add(h.digest())

    def fresh_dir(self):
        self._n += 1
        d = os.path.join(self.scratch, f"d{self._n}")
        os.mkdir(d)
        return d

    def clean(self):
        with os.scandir(self.scratch) as it:
            for e in it:
                if e.is_dir(follow_symlinks=False):
                    shutil.rmtree(e.path, ignore_errors=True)
                else:
                    os.unlink(e.path)


def jsonable(x):
    if isinstance(x, (str, int, float, bool)) or x is None:
        if isinstance(x, str):
            return x.encode("utf-8", "backslashreplace").decode()
        return x
    if isinstance(x, dict):
        return {str(jsonable(k)): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(i) for i in x]
    if isinstance(x, (set, frozenset)):
        return sorted((jsonable(i) for i in x), key=repr)
    if isinstance(x, bytes):
        return "bytes:" + x.decode("latin-1")
    return repr(x)


def canon(case):
    return json.dumps(jsonable(case), sort_keys=True)


def mine(i, k, n):
    # spread neighbouring cases over workers without any periodicity
    return ((i * 2654435761) >> 7) % n == k


WALL_TIMEOUT = 180  # seconds


def _on_alarm(signum, frame):
    raise CaseTimeout()


def run_one(space, case, ctx):
    """Returns None or a violation record."""
    # CPU time, so that a busy machine is no reason for an alarm; a wait for something that never comes
    # is given up much later
    signal.signal(signal.SIGALRM, _on_alarm)
    signal.signal(signal.SIGPROF, _on_alarm)
    signal.setitimer(signal.ITIMER_PROF, space.timeout)
    signal.setitimer(signal.ITIMER_REAL, max(space.timeout * 2, WALL_TIMEOUT))
    try:
        space.run(case, ctx)
        return None
    except Violation as e:
        return {"what": e.what, "detail": jsonable(e.detail)}
    except CaseTimeout:
        return {
            "what": f"the call did not finish within {space.timeout} s",
            "detail": {"traceback": traceback.format_exc()[-3000:]},
        }
    except Exception as e:  # the code under test raised where no exception is allowed
        return {
            "what": f"unexpected exception {type(e).__name__}: {e}".encode(
                "utf-8", "backslashreplace"
            ).decode(),
            "detail": {
                "traceback": traceback.format_exc()[-3000:]
                .encode("utf-8", "backslashreplace")
                .decode()
            },
        }
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.setitimer(signal.ITIMER_REAL, 0)


def _enter_worker(scratch):
    os.makedirs(scratch, exist_ok=True)
    os.chdir(scratch)
    devnull = os.open(os.devnull, os.O_RDWR)
    os.dup2(devnull, 2)
    os.close(devnull)


def _worker(space, tier, k, n, scratch, known, shm, deadline, out):
    ctx = Ctx(os.path.join(scratch, f"w{k}"))
    _enter_worker(ctx.scratch)
    space.setup(ctx)
    result = {"violation": None, "known": [], "samples": [], "capped": False}
    total = 0
    off = 16 + 16 * k
    for i, case in enumerate(space.cases(tier)):
        total = i + 1
        if not mine(i, k, n):
            continue
        best = struct.unpack_from("q", shm, 0)[0]
        if best >= 0 and i > best:
            break
        if time.monotonic() > deadline:
            result["capped"] = True
            break
        struct.pack_into("qd", shm, off, i, time.monotonic())
        v = run_one(space, case, ctx)
        ctx.cases += 1
        if ctx._n:
            os.chdir(ctx.scratch)
            ctx.clean()
        if ctx.cases <= 2 and k < 2:
            result["samples"].append(jsonable(case))
        if v is not None:
            key = canon(case)
            if key in known:
                result["known"].append(key)
                continue
            v["index"], v["case"] = i, jsonable(case)
            result["violation"] = v
            # publish the smallest violating index (benign race: only costs extra work)
            best = struct.unpack_from("q", shm, 0)[0]
            if best < 0 or i < best:
                struct.pack_into("q", shm, 0, i)
            break
    struct.pack_into("qd", shm, off, -1, 0.0)
    result["total"] = total
    result["cases"] = ctx.cases
    result["transitions"] = ctx.transitions
    result["states"] = b"".join(ctx.states)
    with open(out, "wb") as f:
        pickle.dump(result, f)


def explore(space, tier, known, workers, deadline, scratch):
    """Runs every case of the space. Returns a merged result dict."""
    shm = mmap.mmap(-1, 16 + 16 * workers)
    struct.pack_into("q", shm, 0, -1)
    for k in range(workers):
        struct.pack_into("qd", shm, 16 + 16 * k, -1, 0.0)
    pids = {}
    sys.stdout.flush()
    sys.stderr.flush()
    for k in range(workers):
        out = os.path.join(scratch, f"out{k}")
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                _worker(space, tier, k, workers, scratch, known, shm, deadline, out)
            except BaseException:
                with open(out + ".err", "w") as f:
                    f.write(traceback.format_exc())
                code = 3
            os._exit(code)
        pids[pid] = k
    dead = []  # (index, why)
    errors = []
    live = dict(pids)
    while live:
        pid, status = os.waitpid(-1, os.WNOHANG)
        if pid == 0:
            now = time.monotonic()
            for p, k in live.items():
                i, t = struct.unpack_from("qd", shm, 16 + 16 * k)
                if i >= 0 and t and now - t > max(space.timeout * 2, WALL_TIMEOUT) + 10:
                    os.kill(p, signal.SIGKILL)
            time.sleep(0.005)
            continue
        if pid not in live:
            continue
        k = live.pop(pid)
        if os.WIFEXITED(status) and os.WEXITSTATUS(status) == 0:
            continue
        if os.WIFEXITED(status) and os.WEXITSTATUS(status) == 3:
            with open(os.path.join(scratch, f"out{k}.err")) as f:
                errors.append(f.read())
            continue
        i, _ = struct.unpack_from("qd", shm, 16 + 16 * k)
        dead.append((i, f"the process executing the case died (wait status {status})"))
        best = struct.unpack_from("q", shm, 0)[0]
        if i >= 0 and (best < 0 or i < best):
            struct.pack_into("q", shm, 0, i)
    merged = {
        "space": space.name,
        "doc": space.doc,
        "cases": 0,
        "transitions": 0,
        "states": set(),
        "violations": [],
        "known": [],
        "samples": [],
        "capped": False,
        "total": 0,
    }
    for k in range(workers):
        out = os.path.join(scratch, f"out{k}")
        if not os.path.exists(out):
            continue
        with open(out, "rb") as f:
            r = pickle.load(f)
        os.unlink(out)
        merged["cases"] += r["cases"]
        merged["transitions"] += r["transitions"]
        s = r["states"]
        merged["states"].update(s[j : j + 8] for j in range(0, len(s), 8))
        merged["known"] += r["known"]
        merged["samples"] += r["samples"]
        merged["capped"] |= r["capped"]
        merged["total"] = max(merged["total"], r["total"])
        if r["violation"]:
            merged["violations"].append(r["violation"])
    for e in errors:
        # nothing of this kind happens on a tree where the property holds
        merged["violations"].append(
            {"what": "the harness could not be run: " + e[-3000:], "detail": {}, "index": -1, "case": None}
        )
    for i, why in dead:
        case = None
        for j, c in enumerate(space.cases(tier)):
            if j == i:
                case = jsonable(c)
                break
        merged["violations"].append(
            {"what": why, "detail": {}, "index": i, "case": case}
        )
    merged["violations"].sort(key=lambda v: v["index"])
    return merged


def replay_in_child(space, tier, index, k, n, scratch, prefix):
    """
    Runs one case again in a fresh process, alone (prefix=False) or after the cases the
    worker had executed before it (prefix=True). Returns the violation record or None.
    """
    out = os.path.join(scratch, "replay.out")
    if os.path.exists(out):
        os.unlink(out)
    pid = os.fork()
    if pid == 0:
        try:
            ctx = Ctx(os.path.join(scratch, "replay"))
            _enter_worker(ctx.scratch)
            space.setup(ctx)
            v = None
            for i, case in enumerate(space.cases(tier)):
                if i < index:
                    if prefix and mine(i, k, n):
                        run_one(space, case, ctx)
                        os.chdir(ctx.scratch)
                        ctx.clean()
                    continue
                v = run_one(space, case, ctx)
                break
            with open(out, "wb") as f:
                pickle.dump(v, f)
        finally:
            os._exit(0)
    t0 = time.monotonic()
    while True:
        p, status = os.waitpid(pid, os.WNOHANG)
        if p:
            break
        if time.monotonic() - t0 > max(space.timeout * 2, WALL_TIMEOUT) + 200:
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
            break
        time.sleep(0.005)
    if not os.path.exists(out):
        return {"what": "the replaying process died or hung", "detail": {}}
    with open(out, "rb") as f:
        return pickle.load(f)


def load_known(path, prop):
    """known: property=C05 space=<name> case=<json> :: description"""
    known = {}
    if not os.path.exists(path):
        return known
    with open(path) as f:
        for line in f:
            line = line.rstrip("\n")
            if not line.startswith("known: "):
                continue
            head, _, what = line[len("known: ") :].partition(" :: ")
            p, s, c = head.split(" ", 2)
            if p != f"property={prop}":
                continue
            assert s.startswith("space=") and c.startswith("case=")
            known.setdefault(s[6:], {})[
                json.dumps(json.loads(c[5:]), sort_keys=True)
            ] = what
    return known


def scratch_root():
    base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else None
    return tempfile.mkdtemp(prefix="verif-mc-", dir=base)
