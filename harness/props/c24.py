"""C24: calls in several threads give what they give one after another."""

import sys
import threading

import engine
import gens as G

from . import c13, cold
from .common import *

QUICK = 20000
THOROUGH = 60000
RULE = (
    "cases are two or three threads, each with its own objects and a list of public "
    "calls, and a schedule: at drawn source-line boundaries inside the library the "
    "running thread is suspended and another one resumed (a deterministic scheduler "
    "on trace events); a quarter are sweeps: two threads with few repeated calls, the first suspended once at up to 16 spread "
    "points while the other runs to its end; every thread's results, and those of the same calls afterwards, must equal those of a sequential run; "
    "a third of the cases start in a process that has not used the library yet; "
    "non-trivial = at least two switches took place inside the library"
)
ASSUMPTIONS = ["objects are not shared between threads; switches happen at line boundaries of the library's source"]

ROOT = engine.os.path.realpath(engine.REPO_SRC)


def twin(src, c):
    """a call like c on the same code path: the likeliest to collide with it"""
    for _ in range(6):
        d = c13.call(src)
        if d[0] == c[0]:
            return d
    return c13.call(src)


HOSTS = [
    ["a.example", "b.example", "EXAMPLE.org", "x.y"],
    ["xn--zca.de", "faß.de", "日本.example", "b\u00fccher.de"],
    ["127.1", "10.0.0.1", "0xff.1", "255.255.255.255", "0"],
    ["[1::2]", "[::]", "[::1.2.3.4]", "[1:2:3:4:5:6:7:8]", "[a:0:0:b:0:0:0:c]"],
]


def plain(src, k=None, kind=None):
    """a call that gets through the whole of the library's work"""
    if kind is None:
        kind = src.choice([0, 0, 0, 1, 1, 1, 2, 3])
    d = src.choice(HOSTS[kind])
    if k is None:
        k = src.draw(7)
    if k == 6:
        # a character the validator has to look up
        c = src.choice(["\U000effff", "\U000effff", "\U0010ffff", "\U0010ffff", "\ufdef", "\ufdd0", "\U0001f600", "\ufffe", "\U0010fffd", "\xa0", "\x80", "\ue000", "%zz", "<", "\U00020000", "\u65e5"])
        return ["valid", src.choice(["http://h/", "x:", "http://h/?", "http://h/#"]) + c, src.chance(1, 2)]
    if k == 0:
        return ["ascii", d, src.chance(1, 3)]
    if k == 1:
        return ["host", d, src.chance(1, 4)]
    if k == 2:
        return ["parse", src.choice(["http", "file", "wss"]) + "://" + d + src.choice(["", "/p?q#f", ":81/", "/a/../b"]), None]
    if k == 3:
        return ["unicode", d, src.chance(1, 3)]
    if k == 4:
        return ["hostvalid", src.choice(["is_valid", "is_valid_domain"]), d, src.chance(1, 2)]
    return ["set", G.good_url(src), src.choice(["host", "hostname", "href"]), d]


def gen_sweep(src):
    """one thread is suspended once, after many numbers of lines in turn, while
    the other one runs through its calls; few calls, repeated, so that what one
    leaves behind is met again"""
    if src.chance(1, 2):
        k = src.choice([0, 1, 2, 3, 4, 5, 6, 6, 6])
        kind = src.draw(4)
        a = plain(src, k, kind)
        # the same kind of work: the likeliest to meet what the other prepares
        b = plain(src, k, kind) if src.chance(2, 3) else plain(src)
    else:
        a = c13.call(src)
        b = twin(src, a)
    threads = [[a] * (1 + src.draw(2)), [b] * (1 + src.draw(3))]
    return {"threads": threads, "sweep": src.draw(256), "again": src.draw(60), "sched": [], "cold": src.chance(1, 2)}


def gen(src):
    if src.chance(1, 4):
        return gen_sweep(src)
    n = 2 + src.draw(2)
    if src.chance(1, 3):
        # few different calls, repeated
        pool = [plain(src) if src.chance(1, 2) else c13.call(src) for _ in range(n)]
        threads = [[src.choice([pool[i], pool[i], src.choice(pool)]) for _ in range(1 + src.size(2, 4))] for i in range(n)]
        sched = [[src.draw(4), src.between(1, src.choice([3, 12, 60, 250]))] for _ in range(1 + G.length(src, 6, 20, 60))]
        return {"threads": threads, "sched": sched, "cold": src.chance(1, 4)}
    threads = [[c13.call(src) for _ in range(1 + src.size(2, 4))] for _ in range(n)]
    if src.chance(1, 3):
        # the same work in all threads: the likeliest to collide
        threads = [list(threads[0]) for _ in range(n)]
    sched = [[src.draw(4), src.choice([1, 2, 3, 5, 8, 13, 40, 120, 400])] for _ in range(1 + G.length(src, 12, 30, 80))]
    return {"threads": threads, "sched": sched, "cold": src.chance(1, 2)}


FIXED = [
    {"threads": [[["ascii", "faß.de", False], ["unicode", "faß.de", True]]] * 2, "sched": [[1, 1]] * 60, "cold": c} for c in (False, True)
]


class Scheduler:
    """one thread runs at a time; it hands over after its quantum of lines"""

    def __init__(self, n, sched):
        self.cv = threading.Condition()
        self.n = n
        self.sched = sched
        self.pos = 0
        self.done = [False] * n
        self.cur = 0
        self.left = sched[0][1]
        self.steps = 0
        self.switches = 0
        self.new = []  # steps at which the first thread reaches a new line

    def next(self):
        """with cv held: choose who runs now"""
        alive = [i for i in range(self.n) if not self.done[i]]
        if not alive:
            return
        self.pos += 1
        who, quantum = self.sched[self.pos % len(self.sched)]
        self.left = quantum
        new = alive[(self.cur + 1 + who) % len(alive)]
        if new != self.cur:
            self.switches += 1
        self.cur = new
        self.cv.notify_all()

    def wait(self, me):
        stuck = 0
        while self.cur != me:
            before = self.steps
            if not self.cv.wait(0.005) and self.steps == before:
                # the running thread is blocked outside the scheduler (a lock
                # in the code under test): let this one go on
                stuck += 1
                if stuck >= 2 and self.cur != me:
                    self.cur = me
                    self.left = 50
            else:
                stuck = 0

    def step(self, me):
        with self.cv:
            self.wait(me)
            self.steps += 1
            self.left -= 1
            if self.left <= 0:
                self.next()
                self.wait(me)

    def finish(self, me):
        with self.cv:
            self.done[me] = True
            if self.cur == me:
                self.next()


def sequential(case):
    return [[c13.run_call(c) for c in t] for t in case["threads"]]


def concurrent(case):
    """-> (results per thread, errors, switches, results of a later sequential run)"""
    n = len(case["threads"])
    s = Scheduler(n, case["sched"])
    got = [[] for _ in range(n)]
    errors = []

    def worker(i):
        seen = set()

        def local(frame, event, arg):
            if event == "line":
                s.step(i)
                if i == 0 and (frame.f_code, frame.f_lineno) not in seen:
                    seen.add((frame.f_code, frame.f_lineno))
                    s.new.append(s.steps)
            return local

        def tracer(frame, event, arg):
            return local if frame.f_code.co_filename.startswith(ROOT) else None

        with s.cv:
            s.wait(i)
        sys.settrace(tracer)
        try:
            for c in case["threads"][i]:
                got[i].append(c13.run_call(c))
        except BaseException as e:
            errors.append((i, f"{type(e).__name__}: {e}"))
        finally:
            sys.settrace(None)
            s.finish(i)

    ts = [threading.Thread(target=worker, args=(i,), daemon=True) for i in range(n)]
    for t in ts:
        t.start()
    for t in ts:
        while t.is_alive():
            t.join(0.5)
    # what the threads did last is met again first
    after = [[c13.run_call(c) for c in t] for t in reversed(case["threads"])][::-1]
    return got, errors, s.switches, after, s.steps, s.new


def serve(req):
    return {"seq": sequential, "con": concurrent}[req[0]](req[1])


def sweep(case, seq=None, con=None):
    """-> None or the schedule and the results that differ"""
    seq, con = seq or sequential, con or concurrent
    want = seq(case)
    phase = case["sweep"]
    steps, firsts, points = 0, [], []
    for i in range(-2, 16):
        # the first thread runs k lines, the second one to its end (or for
        # some lines only, then the first one, then the second one)
        if i == -2:
            sched = [[0, 1 << 40], [0, 1 << 40]]
        elif i == -1:
            sched = [[0, 1], [0, 1]]
        elif i < len(points):
            k = points[i]
            sched = [[0, k], [0, 1 << 40]]
            if case["again"] and i % 3 == 2:
                sched = [[0, k], [0, case["again"]], [0, 1 << 40], [0, 1 << 40]]
        else:
            return None
        got, errors, switches, after, steps, new = con(dict(case, sched=sched))
        if errors or got != want or after != want:
            return sched, errors, got, want, after
        if i == -2:
            # the suspension points of one case: some spread over the run of the
            # first thread, more over the lines it reaches for the first time;
            # few when there are many lines
            n = max(2, min(16, 12000 // (steps + 1)))
            for m, where in ((n - n // 3, new), (n // 3, range(1, steps + 1))):
                stride = len(where) // max(1, m) + 1
                points += [where[j] for j in range(phase % stride, len(where), stride)][:m]
    return None


def in_cold(what):
    """each run in a process of its own that has not used the library yet"""

    def f(case):
        ok, res = cold.run((what, case))
        expect(ok == "ok", "a run in a fresh process failed", what, case["threads"], case["sched"], res)
        return res

    return f


def setup():
    cold.start(serve)


def check(case, ctx):
    if "sweep" in case:
        bad = sweep(case, in_cold("seq"), in_cold("con")) if case["cold"] else sweep(case)
        ctx.hit()
        ctx.label("cold sweep" if case["cold"] else "sweep")
        if bad:
            sched, errors, got, want, after = bad
            expect(not errors, "a call failed when interleaved", errors, case["threads"], sched)
            expect(got == want, "a thread got other results than sequentially", case["threads"], sched, got, want)
            expect(False, "results differ after a concurrent run", case["threads"], sched, after, want)
        return
    if case["cold"]:
        # from a process in which the library has not been used yet
        (ok1, want), (ok2, res) = cold.run(("seq", case)), cold.run(("con", case))
        expect(ok1 == "ok", "a sequential run failed", case["threads"], want)
        expect(ok2 == "ok", "a concurrent run failed", case["threads"], res)
        got, errors, switches, after, _, _ = res
        ctx.label("cold")
    else:
        want = sequential(case)
        got, errors, switches, after, _, _ = concurrent(case)
        ctx.label("warm")
    if switches >= 2:
        ctx.hit()
    ctx.label("switches>=10" if switches >= 10 else "switches<10")
    expect(not errors, "a call failed when interleaved", errors, case["threads"])
    for t, g, w in zip(case["threads"], got, want):
        expect(g == w, "a thread got other results than sequentially", [x for x in zip(t, g, w) if x[1] != x[2]][:2])
    expect(after == want, "results differ after a concurrent run", case["threads"])
