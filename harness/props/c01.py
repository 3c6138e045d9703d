"""C01: parsing (with and without a base) does what the URL Standard says."""

import gens as G

from .common import *

QUICK = 360000
THOROUGH = 2400000
RULE = (
    "cases are (input, base or none) pairs from a URL grammar with mutations, the "
    "WPT corpus and coverage feedback; every accepted/rejected verdict, record "
    "component and serialization is compared with an independent reference model "
    "of the Standard; non-trivial = accepted, or rejected by more than the missing "
    "scheme/base (the input has a scheme or a usable base)"
)
ASSUMPTIONS = [
    "harness/refurl.py is a faithful reading of the URL Standard snapshot fff33c3 "
    "(cross-checked against Node's parser and WPT)",
    "ICU (via icupy) implements UTS #46",
]


def gen(src):
    if src.chance(1, 8):
        # a base that is an object with a history of assignments
        b = G.good_url(src)
        ops = []
        for _ in range(1 + src.size(1, 4)):
            a = src.choice(G.SETTERS)
            ops.append([a, G.setter_value(src, a)])
        return {"url": G.relative_ref(src), "base": b, "ops": ops}
    if src.chance(1, 16):
        b, ops, u = G.drive_case(src)
        return {"url": u, "base": b, "ops": ops}
    if src.chance(1, 6):
        # everything from tiny alphabets, so that rare combinations meet
        case = {"url": G.small_ref(src), "base": G.small_good(src)}
        if src.chance(1, 2):
            case["ops"] = G.small_history(src, 1 + src.size(1, 3))
        return case
    if src.chance(1, 16):
        h = G.host(src)
        if src.chance(1, 4):
            h = G.mutate_str(src, h)
        return {"host": h, "opaque": src.chance(1, 2)}
    u, b = G.url_and_base(src)
    return {"url": u, "base": b}


FIXED = [{"url": u, "base": b} for u, b in G.SEEDS["urls"]] + [
    {"url": u, "base": b}
    for u, b in [
        ("http://1_0.+1.1/", None),
        ("http://256.256/", None),
        ("http://[::1.2.3.4:5]/", None),
        ("http://[1:2:3:4:5:6:7::]/", None),
        ("http://[:::1]/", None),
        ("http://h:" + "0" * 5000 + "1/", None),
        ("http://[::1." + "9" * 5000 + ".1.1]/", None),
        ("", "file:///a/b?q#f"),
        ("file:", "file:///a/b?q#f"),
        ("data:\ud83c\udf08", None),
    ]
] + [{"host": h, "opaque": o} for h in ["", "\t", "a\tb", "a\n", "\r", "a b", "[", "[]", "%", "a\x00"] for o in (False, True)]


def with_history(case, ctx):
    """the reference against a base object that was changed by assignments"""
    try:
        mb = R.ModelURL(case["base"])
    except R.Fail:
        return
    rb = P.URL(case["base"])
    for a, v in case["ops"]:
        mb.set(a, v)
        try:
            setattr(rb, a, v)
        except URLParseError:
            pass
    try:
        m = R.ModelURL(case["url"], mb)
    except R.Fail:
        m = None
    try:
        r = P.URL(case["url"], rb)
    except URLParseError:
        r = None
    ctx.label("base-with-history")
    expect((m is None) == (r is None), "verdict", case, r and r.href, m and m.rec.href())
    if m is not None:
        ctx.hit()
        d = diff(url_snapshot(r), m.snapshot())
        expect(not d, "components", case, d)


def host_alone(case, ctx):
    """the host parser, called directly"""
    h = case["host"]
    try:
        want = R.parse_host(h, case["opaque"], []) if h else ""
    except R.Fail:
        want = None
    try:
        got = P.Host.parse(h, case["opaque"])
    except URLParseError:
        got = None
    ctx.label("host-parser:" + ("fail" if want is None else type(want).__name__))
    ctx.hit()
    expect(got == want and type(got) is type(want), "host parser", case, got, want)
    if want is not None:
        expect(P.Host.serialize(got) == R.serialize_host(want), "host serializer", case, P.Host.serialize(got))


def check(case, ctx):
    if "host" in case:
        host_alone(case, ctx)
        return
    url, base = case["url"], case["base"]
    if "ops" in case:
        with_history(case, ctx)
        return
    m = model_parse(url, base)
    record_classes(m, ctx)
    if base is not None:
        ctx.label("with-base")
    if m is not None or base is not None or ":" in url:
        ctx.hit()
    r = real_parse(url, base)
    if m is None:
        expect(r is None, "accepted, but the Standard rejects it", case, r)
        return
    expect(r is not None, "rejected, but the Standard accepts it", case, m.href())
    got = rec_dict(r)
    want = dict(zip(FIELDS, m.tup()))
    d = diff(got, want)
    expect(not d, "component differs from the Standard", case, d)
    expect(r.href == m.href() and str(r) == m.href(), "serialization", case, r.href, m.href())
    expect(
        r.serialize_url(exclude_fragment=True) == m.href(True),
        "serialization without fragment",
        case,
        r.serialize_url(exclude_fragment=True),
    )
