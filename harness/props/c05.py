"""C05: serialization is lossless and a fixed point of parsing."""

import gens as G

from .common import *

QUICK = 320000
THOROUGH = 1500000
RULE = (
    "cases are (input, base) pairs, some followed by a history of assignments; the "
    "serialization of every URL reached is parsed again (alone, and against an "
    "unrelated base) and must give the same record and the same string, in "
    "printable ASCII; non-trivial = the URL was accepted and its serialization "
    "differs from the input, or assignments were applied"
)
ASSUMPTIONS = [
    "histories that switch the scheme to 'file' are left out: there the Standard "
    "itself is not idempotent (drive letters, 'localhost')"
]

BASES = ["http://other.example/x/y?z#w", "file:///C:/base/", "foo:opaque", "foo://h/p"]


def gen(src):
    u, b = G.url_and_base(src)
    ops = []
    if src.chance(1, 3):
        u, b = G.good_url(src), None
        for _ in range(1 + src.size(2, 6)):
            a = src.choice(G.SETTERS)
            ops.append([a, G.setter_value(src, a)])
    return {"url": u, "base": b, "ops": ops, "other": src.choice(BASES)}


FIXED = [
    {"url": u, "base": None, "ops": [], "other": BASES[0]}
    for u in ["foo:/.//p", "web+demo:/a/..//b", "file:////C|/x", "foo://h?#", "data:x  #", "http://h:0?"]
]


def lossless(r, case, what):
    s = r.href
    expect(
        type(s) is str and s.isascii() and s.isprintable(),
        what + ": the serialization is not printable ASCII",
        case,
        s,
    )
    for base in (None, case["other"]):
        try:
            again = P.parse_url(s, base)
        except URLParseError as e:
            raise Violation(f"{what}: its own serialization {s!r} does not parse: {e}")
        expect(
            rec_tuple(again) == rec_tuple(r) and again.href == s,
            what + ": parsing the serialization gives another URL",
            case,
            rec_tuple(r),
            rec_tuple(again),
        )


def check(case, ctx):
    r = real_parse(case["url"], case["base"])
    if r is None:
        ctx.label("rejected")
        return
    ctx.label("scheme=" + (r.scheme if r.is_special() else "non-special"))
    if r.href != case["url"]:
        ctx.label("normalized")
        ctx.hit()
    lossless(r, case, "a parsed URL")
    if not case["ops"]:
        return
    u = P.URL(case["url"], case["base"])
    for attr, value in case["ops"]:
        was = u.protocol
        try:
            setattr(u, attr, value)
        except URLParseError:
            pass
        if u.protocol == "file:" and was != "file:" and attr == "protocol":
            ctx.label("switched-to-file")
            return
        ctx.label("assigned " + attr)
        ctx.hit()
        s = u.href
        expect(s.isascii() and s.isprintable(), f"not printable ASCII after {attr}", case, s)
        try:
            v = P.URL(s)
        except URLParseError as e:
            raise Violation(f"after assigning {attr}: own serialization {s!r} does not parse: {e}")
        d = diff(url_snapshot(v), url_snapshot(u))
        expect(not d, f"after assigning {attr}: parsing {s!r} gives another URL", case, d)
