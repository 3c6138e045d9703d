"""C23: logging is an output only: it reports errors and never changes results."""

import logging

import gens as G

from .common import *

QUICK = 48000
THOROUGH = 400000
RULE = (
    "cases are (input, base), an assignment and a logging configuration (level, "
    "logger class, handlers, adapters, logging disabled); results under the "
    "configuration must equal the ones under the default, every message must format, "
    "the messages logged at INFO and above must be the validation errors collected by "
    "a validity object, and a validity object with logging disabled must silence them; "
    "non-trivial = at least one validation error was logged"
)


class Capture(logging.Handler):
    def __init__(self):
        super().__init__(0)
        self.out = []

    def emit(self, record):
        self.out.append((record.levelno, record.name, record.getMessage()))


class Strict(logging.Logger):
    """a logger class that takes no extra arguments"""

    def info(self, msg, *args, exc_info=None, extra=None, stack_info=False, stacklevel=1):
        super().info(msg, *args, exc_info=exc_info, extra=extra, stack_info=stack_info, stacklevel=stacklevel + 1)


class Chatty(logging.Logger):
    def makeRecord(self, *a, **k):
        r = super().makeRecord(*a, **k)
        r.extra_field = 1
        return r


LEVELS = [logging.NOTSET, 1, logging.DEBUG, logging.INFO, logging.WARNING, logging.ERROR, logging.CRITICAL]


def gen(src):
    u, b = G.url_and_base(src)
    a = src.choice(G.SETTERS)
    return {
        "url": u,
        "base": b,
        "level": src.choice(LEVELS),
        "klass": src.choice(["", "", "Strict", "Chatty"]),
        "disable": src.chance(1, 6),
        "start": G.good_url(src),
        "attr": a,
        "value": G.setter_value(src, a),
        "host": G.host(src),
    }


FIXED = [
    {"url": u, "base": None, "level": 10, "klass": k, "disable": False, "start": "http://h/", "attr": "host", "value": "a b", "host": "0x1"}
    for u in ["http://u@h:80/%zz?%d#%s", "http://%d/", "foo:%s %(x)s", "http://0x100.1/", "//x"]
    for k in ["", "Strict", "Chatty"]
]


def outcome(case):
    out = []
    try:
        r = P.parse_url(case["url"], case["base"])
        out.append(rec_tuple(r))
    except URLParseError as e:
        out.append((type(e).__name__, str(e)))
    try:
        out.append(P.Host.parse(case["host"]))
    except URLParseError as e:
        out.append((type(e).__name__, str(e)))
    try:
        u = P.URL(case["start"])
        try:
            setattr(u, case["attr"], case["value"])
        except URLParseError as e:
            out.append((type(e).__name__, str(e)))
        out.append(url_snapshot(u))
    except URLParseError as e:
        out.append((type(e).__name__, str(e)))
    for q in (True, False):
        v = P.ValidityState(disable_logging=q)
        out.append((P.URL.can_parse(case["url"], case["base"], validity=v), v.error_types, v.descriptions, v.disable_logging))
        v = P.ValidityState(disable_logging=q)
        out.append((P.URLValidator.is_valid(case["url"], case["base"], validity=v), v.error_types))
        v = P.ValidityState(disable_logging=q)
        out.append((P.HostValidator.is_valid(case["host"], validity=v), v.error_types))
    return out


class Config:
    def __init__(self, case):
        self.case = case

    def __enter__(self):
        c = self.case
        self.cap = Capture()
        self.top = logging.getLogger("urlstd")
        self.saved = (self.top.level, self.top.propagate, list(self.top.handlers))
        self.klass = logging.getLoggerClass()
        self.removed = {}
        if c["klass"]:
            # as if the application had chosen its logger class first
            logging.setLoggerClass({"Strict": Strict, "Chatty": Chatty}[c["klass"]])
            d = logging.Logger.manager.loggerDict
            for k in list(d):
                if k.startswith("urlstd"):
                    self.removed[k] = d.pop(k)
        self.top.setLevel(c["level"])
        self.top.propagate = False
        self.top.addHandler(self.cap)
        if c["disable"]:
            logging.disable(logging.CRITICAL)
        return self.cap.out

    def __exit__(self, *a):
        logging.disable(logging.NOTSET)
        if self.case["klass"]:
            logging.setLoggerClass(self.klass)
            d = logging.Logger.manager.loggerDict
            for k in list(d):
                if k.startswith("urlstd"):
                    del d[k]
            d.update(self.removed)
        level, prop, handlers = self.saved
        self.top.setLevel(level)
        self.top.propagate = prop
        self.top.handlers[:] = handlers


def setup():
    logging.getLogger("urlstd").addHandler(logging.NullHandler())
    logging.getLogger("urlstd").setLevel(logging.CRITICAL)
    logging.getLogger().addHandler(logging.NullHandler())


def check(case, ctx):
    want = outcome(case)
    with Config(case) as out:
        got = outcome(case)
        expect(got == want, "the logging configuration changes a result", case, [x for x, y in zip(got, want) if x != y], [y for x, y in zip(got, want) if x != y])
    ctx.label("level=%d" % case["level"])
    # what is logged
    plain = dict(case, klass="", disable=False, level=logging.DEBUG)
    u, b = case["url"], case["base"]
    v = P.ValidityState()
    with Config(plain) as out:
        P.URL.can_parse(u, b, validity=v)
        P.URLValidator.is_valid(u, b, validity=P.ValidityState())
        P.URL.can_parse(u, b)
        P.HostValidator.is_valid(case["host"])
        loud = [m for lv, n, m in out if lv >= logging.INFO]
        expect(not loud, "a validity object that disables logging still logs", u, b, loud)
        del out[:]
        real_parse(u, b)
        logged = [m for lv, n, m in out if lv >= logging.INFO]
        expect(logged == v.descriptions[::-1], "the log is not the list of validation errors", u, b, logged, v.descriptions)
        expect(all(n == "urlstd" or n.startswith("urlstd.") for _, n, _ in out), "logged outside the urlstd loggers", u, [n for _, n, _ in out][:3])
        del out[:]
        w = P.ValidityState(disable_logging=False)
        P.URL.can_parse(u, b, validity=w)
        logged = [m for lv, n, m in out if lv >= logging.INFO]
        expect(w.descriptions == v.descriptions, "logging changes the validity object", u, b)
        expect(logged == v.descriptions[::-1], "a validity object that enables logging does not log", u, b, logged)
        expect(w.disable_logging is False and v.disable_logging is True, "disable_logging was changed", u)
        del out[:]
    quiet = dict(plain, level=logging.CRITICAL)
    with Config(quiet) as out:
        real_parse(u, b)
        expect(not out, "logged in spite of the level", u, b, out[:2])
    if v.descriptions:
        ctx.hit()
        ctx.label("errors-logged")
