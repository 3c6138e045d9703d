"""A small choice-sequence property-based testing engine.

* A generator is a function `gen(src) -> case` drawing every decision from a
  `Source`; a case is plain data (str/int/bool/None/list/dict), so it *is* the
  replay file.
* A check is a function `check(case, ctx)`; it raises `Violation` (or returns
  normally).  It never draws anything, so a case is a pure input.
* A campaign draws a fixed number of cases from a seed (never a time budget), a
  part of them as mutations of earlier cases that reached a new source line of
  the code under test (coverage guidance through sys.monitoring).
* A failure is shrunk on its choice sequence (delete spans, zero, lower), so a
  shrunk case is always one the generator can produce.
"""

import ast
import hashlib
import json
import os
import random
import signal
import sys
import time
import traceback

REPO_SRC = os.environ.get("VERIF_REPO_SRC", "/repo/src")


class Violation(Exception):
    """The property does not hold for this case."""


class HarnessError(BaseException):
    """The check itself cannot be trusted here (e.g. two oracles disagree)."""


class Hang(BaseException):
    """A single case ran for an absurd time."""


# ------------------------------------------------------------------ source


class Source:
    __slots__ = ("prefix", "rng", "rec", "pos", "limit")

    def __init__(self, prefix=(), rng=None, limit=4000):
        self.prefix = prefix
        self.rng = rng
        self.rec = []
        self.pos = 0
        self.limit = limit

    def draw(self, n):
        """an int in [0, n); 0 is the simplest"""
        pos = self.pos
        self.pos = pos + 1
        if n <= 1:
            v = 0
        elif pos < len(self.prefix):
            v = self.prefix[pos]
            if v >= n:
                v %= n
        elif self.rng is not None and pos < self.limit:
            v = int(self.rng.random() * n) if n < 1 << 50 else self.rng.randrange(n)
        else:
            v = 0
        self.rec.append(v)
        return v

    def chance(self, num, den):
        """True with probability num/den; the simplest is False"""
        return self.draw(den) >= den - num

    def choice(self, seq):
        return seq[self.draw(len(seq))]

    def between(self, lo, hi):
        return lo + self.draw(hi - lo + 1)

    def size(self, avg, hi):
        """a geometric-ish size, drawn by continuing: deletion-friendly"""
        n = 0
        while n < hi and self.draw(avg + 1) != 0:
            n += 1
        return n


# ------------------------------------------------------------- case <-> json


def enc(x):
    if isinstance(x, str):
        if any(0xD800 <= ord(c) <= 0xDFFF for c in x):
            return {"$cp": [ord(c) for c in x]}
        return x
    if isinstance(x, bytes):
        return {"$b": x.hex()}
    if isinstance(x, dict):
        return {k: enc(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [enc(v) for v in x]
    return x


def dec(x):
    if isinstance(x, dict):
        if "$cp" in x and len(x) == 1:
            return "".join(chr(o) for o in x["$cp"])
        if "$b" in x and len(x) == 1:
            return bytes.fromhex(x["$b"])
        return {k: dec(v) for k, v in x.items()}
    if isinstance(x, list):
        return [dec(v) for v in x]
    return x


def dumps(case):
    return json.dumps(enc(case), sort_keys=True)


def digest(case):
    return hashlib.blake2b(dumps(case).encode(), digest_size=8).digest()


# --------------------------------------------------------------- constants


def harvest_constants():
    """Literals of the code under test, as a fuzzing dictionary."""
    strs, ints = set(), set()
    root = os.path.join(REPO_SRC, "urlstd")
    for fn in sorted(os.listdir(root)):
        if not fn.endswith(".py"):
            continue
        with open(os.path.join(root, fn), encoding="utf-8") as f:
            tree = ast.parse(f.read())
        skip = set()
        for node in ast.walk(tree):
            if isinstance(node, ast.Expr) and isinstance(node.value, ast.Constant):
                skip.add(id(node.value))
            elif isinstance(node, ast.JoinedStr):
                for v in node.values:
                    skip.add(id(v))
        for node in ast.walk(tree):
            if isinstance(node, ast.Constant) and id(node) not in skip:
                v = node.value
                if isinstance(v, bool):
                    continue
                if isinstance(v, bytes):
                    v = v.decode("latin-1")
                if isinstance(v, str) and 0 < len(v) <= 40:
                    strs.add(v)
                elif isinstance(v, int) and 0 <= v < 1 << 33:
                    ints.add(v)
    return sorted(strs), sorted(ints)


# ---------------------------------------------------------------- coverage


class LineCoverage:
    """new-line feedback for the files of the code under test"""

    TOOL = 3

    def __init__(self):
        self.new = 0
        self.lines = set()
        self.on = False

    def start(self):
        mon = getattr(sys, "monitoring", None)
        if mon is None:
            return
        try:
            mon.use_tool_id(self.TOOL, "verif")
        except ValueError:
            return
        root = os.path.realpath(REPO_SRC)

        def on_line(code, line):
            if code.co_filename.startswith(root):
                key = (code.co_filename, line)
                if key not in self.lines:
                    self.lines.add(key)
                    self.new += 1
            return mon.DISABLE

        mon.register_callback(self.TOOL, mon.events.LINE, on_line)
        mon.set_events(self.TOOL, mon.events.LINE)
        self.on = True

    def stop(self):
        if self.on:
            sys.monitoring.set_events(self.TOOL, 0)
            sys.monitoring.register_callback(
                self.TOOL, sys.monitoring.events.LINE, None
            )
            sys.monitoring.free_tool_id(self.TOOL)
            self.on = False


# ------------------------------------------------------------------ context


class Ctx:
    """what a check may report about a case"""

    __slots__ = ("labels", "nontrivial")

    def __init__(self):
        self.labels = {}
        self.nontrivial = False

    def label(self, name):
        self.labels[name] = self.labels.get(name, 0) + 1

    def hit(self):
        self.nontrivial = True


CASE_TIMEOUT = 40  # seconds of processor time
CASE_TIMEOUT_WALL = 240


def _alarm(signum, frame):
    raise Hang()


def arm():
    signal.signal(signal.SIGALRM, _alarm)
    signal.signal(signal.SIGPROF, _alarm)


def from_repo(tb):
    """does the traceback end inside the code under test (or below it)?"""
    root = os.path.realpath(REPO_SRC)
    return any(
        os.path.realpath(f.filename).startswith(root)
        for f in traceback.extract_tb(tb)
    )


def run_case(check, case, ctx):
    """-> None or a message (violation).  Harness errors propagate."""
    signal.setitimer(signal.ITIMER_PROF, CASE_TIMEOUT)
    signal.setitimer(signal.ITIMER_REAL, CASE_TIMEOUT_WALL)
    try:
        check(case, ctx)
        return None
    except Violation as e:
        return str(e)
    except Hang:
        return f"no answer within {CASE_TIMEOUT} s (hang)"
    except (KeyboardInterrupt, SystemExit, MemoryError):
        raise
    except Exception as e:
        if from_repo(e.__traceback__):
            last = traceback.extract_tb(e.__traceback__)[-1]
            return (
                f"unexpected {type(e).__name__} out of the code under test: "
                f"{str(e)[:300]} ({os.path.basename(last.filename)}:{last.name})"
            )
        last = traceback.extract_tb(e.__traceback__)[-1]
        if os.path.dirname(os.path.abspath(last.filename)).endswith("/props"):
            # the check tripped over what the code under test returned (a wrong
            # type, a missing attribute): on the unchanged tree this never is
            return (
                f"unusable result: {type(e).__name__}: {str(e)[:300]} "
                f"({os.path.basename(last.filename)}:{last.lineno})"
            )
        raise
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.setitimer(signal.ITIMER_REAL, 0)


# ----------------------------------------------------------------- shrinker


def shrink(gen, check, choices, max_runs=3000, max_seconds=40):
    """shortlex-minimise the choice sequence while the check still fails
    (the time limit bounds how far a failure is reduced, never the verdict)"""
    runs = 0
    t_end = time.monotonic() + max_seconds
    best = list(choices)
    best_case = None
    best_msg = None
    seen = set()

    def attempt(cand):
        nonlocal runs, best, best_case, best_msg
        key = tuple(cand)
        if key in seen or runs >= max_runs:
            return False
        if time.monotonic() > t_end:
            runs = max_runs
            return False
        seen.add(key)
        runs += 1
        src = Source(cand)
        try:
            case = gen(src)
        except Exception:
            return False
        used = src.rec
        while used and used[-1] == 0:
            used.pop()
        if (len(used), used) >= (len(best), best) and best_case is not None:
            return False
        try:
            msg = run_case(check, case, Ctx())
        except Exception:
            return False
        if msg is None:
            return False
        best, best_case, best_msg = used, case, msg
        return True

    attempt(best)
    if best_case is None:
        return None, None, None
    improved = True
    while improved and runs < max_runs:
        improved = False
        for size in (64, 32, 16, 8, 4, 3, 2, 1):
            i = len(best) - size
            while i >= 0 and runs < max_runs:
                if attempt(best[:i] + best[i + size :]):
                    improved = True
                    i = min(i, len(best) - size)
                else:
                    i -= 1
        for size in (16, 4, 1):
            for i in range(0, len(best), size):
                if any(best[i : i + size]) and runs < max_runs:
                    improved |= attempt(
                        best[:i] + [0] * len(best[i : i + size]) + best[i + size :]
                    )
        for i in range(len(best)):
            if i < len(best) and best[i] > 0:
                # also: lower a size-like draw while deleting what follows it
                for d in (1, 2):
                    if i + 1 + d <= len(best):
                        improved |= attempt(
                            best[:i] + [best[i] - 1] + best[i + 1 + d :]
                        )
                lo, hi = 0, best[i]
                while lo < hi and i < len(best) and runs < max_runs:
                    mid = (lo + hi) // 2
                    if attempt(best[:i] + [mid] + best[i + 1 :]):
                        improved = True
                        if i >= len(best):
                            break
                        hi = min(mid, best[i])
                    else:
                        lo = mid + 1
    return best, best_case, best_msg


# ----------------------------------------------------------------- campaign


def mutate_choices(rng, a, b):
    a = list(a)
    k = rng.random()
    if not a:
        return a
    if k < 0.25 and b:
        i = rng.randrange(len(a))
        j = rng.randrange(len(b))
        return a[:i] + list(b[j:])
    for _ in range(1 + int(rng.random() * 4)):
        if not a:
            break
        i = rng.randrange(len(a))
        m = rng.random()
        if m < 0.5:
            a[i] = rng.randrange(0, 1 << 16)
        elif m < 0.7:
            a[i] = max(0, a[i] + rng.choice((-2, -1, 1, 2)))
        elif m < 0.85:
            del a[i : i + 1 + int(rng.random() * 4)]
        else:
            j = rng.randrange(len(a))
            a[i:i] = a[j : j + 1 + int(rng.random() * 4)]
    return a


def campaign(gen, check, n, seed, fixed=(), max_failures=1, known=None):
    """Run `fixed` cases, then n generated ones.  Returns a result dict."""
    rng = random.Random(seed)
    arm()
    cov = LineCoverage()
    cov.start()
    corpus = []
    labels = {}
    distinct = set()
    samples = []
    evals = 0
    failures = []
    known_hits = {}
    try:
        for idx in range(-len(fixed), n):
            if idx < 0:
                case = fixed[idx + len(fixed)]
                rec = None
            else:
                if corpus and rng.random() < 0.25:
                    pre = mutate_choices(rng, rng.choice(corpus), rng.choice(corpus))
                    src = Source(pre, rng)
                else:
                    src = Source((), rng)
                case = gen(src)
                rec = src.rec
            before = cov.new
            ctx = Ctx()
            msg = run_case(check, case, ctx)
            evals += 1
            for k, v in ctx.labels.items():
                labels[k] = labels.get(k, 0) + v
            if ctx.nontrivial:
                distinct.add(digest(case))
                if len(samples) < 3 and idx > n // 10:
                    samples.append(enc(case))
            if cov.new != before and rec is not None and len(rec) < 3000:
                corpus.append(rec)
            if msg is not None:
                k = known(case, msg) if known else None
                if k is not None:
                    known_hits[k] = known_hits.get(k, 0) + 1
                    continue
                failures.append(
                    {"idx": idx, "case": case, "msg": msg, "choices": rec}
                )
                if len(failures) >= max_failures:
                    break
    finally:
        cov.stop()
    return {
        "evals": evals,
        "labels": labels,
        "distinct": distinct,
        "samples": samples,
        "failures": failures,
        "known": known_hits,
        "lines": len(cov.lines),
        "corpus": len(corpus),
    }
