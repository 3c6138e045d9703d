"""C06: hosts that end in a number are IPv4 addresses, exactly as specified."""

import ipaddress

import gens as G

from .common import *

QUICK = 450000
THOROUGH = 3000000
RULE = (
    "cases are (a) a 32-bit value written in 1-4 parts, each part in a random radix, "
    "padding and case, which must parse to that value and serialize as dotted "
    "decimal, and (b) IPv4-like strings with boundary values and syntax errors, "
    "compared with the model through the host parser and through whole URLs; "
    "non-trivial = the model takes the host for an IPv4 address (accepted or not)"
)


def part(src, v):
    k = src.draw(6)
    if k < 2:
        return str(v)
    pad = "0" * (src.between(0, 4) if src.chance(1, 3) else 0)
    if k == 2:
        return "0x" + pad + "%x" % v
    if k == 3:
        return "0X" + pad + "%X" % v
    if k == 4:
        return "0" + pad + "%o" % v
    return str(v)


def gen(src):
    if src.chance(1, 3):
        v = src.draw(2**32) if src.chance(3, 4) else src.choice(
            [0, 1, 255, 256, 2**16 - 1, 2**16, 2**24 - 1, 2**24, 2**31, 2**32 - 1]
        )
        n = src.between(1, 4)
        nums = [(v >> (8 * (3 - i))) & 255 for i in range(n - 1)]
        nums.append(v & ((1 << (8 * (5 - n))) - 1))
        s = ".".join(part(src, x) for x in nums) + ("." if src.chance(1, 8) else "")
        return {"host": s, "value": v}
    s = G.ipv4ish(src)
    if src.chance(1, 8):
        s = G.mutate_str(src, s)
    if src.chance(1, 30):
        s = G.domain(src)
    return {"host": s, "value": None}


FIXED = [
    {"host": h, "value": None}
    for h in ["1_0", "+1", "0x0x1", "00o7", "0x+1", "256.256", "1.2.3.09", "1" * 5000,
              "0" * 5000 + "1", "0x" + "f" * 5000, "1..2", "0x", "0X.0x", "1.0x", "a.0x", "4294967296",
              "256.1", "1.256.1", "1.2.65536", "1.2.3.256", "\u0661.1", "1.1.1.1.", "1.1.1.1..", ".1"]
]


def check(case, ctx):
    h = case["host"]
    if any(c in h for c in "[]") or h == "":
        return
    errs = []
    kind = None
    try:
        want = R.parse_host(h, False, errs)
    except R.Fail as f:
        want, kind = None, f.kind
    if isinstance(want, int) or kind == "ipv4":
        ctx.hit()
    ctx.label("ipv4" if isinstance(want, int) else "domain" if want is not None else "fail:" + kind)
    err = None
    try:
        got = P.Host.parse(h)
    except URLParseError as e:
        got, err = None, e
    expect(got == want and type(got) is type(want), "host parser", h, got, want)
    if kind == "ipv4":
        expect(isinstance(err, IPv4AddressParseError), "IPv4 failure is not an IPv4AddressParseError", h, err)
    if case["value"] is not None:
        expect(got == case["value"], "the address denoted is another one", h, got, case["value"])
    if isinstance(want, int):
        s = P.Host.serialize(got)
        expect(s == str(ipaddress.IPv4Address(want)), "serialization", h, s)
        expect(P.Host.parse(s) == want, "serialize/parse round trip", s)
    # a non-special URL never interprets an IPv4-like host
    if h.isascii() and h.isprintable() and not any(c in R.FORBIDDEN_HOST for c in h):
        expect(P.Host.parse(h, True) == h, "opaque host was interpreted", h)
        # the same through whole URLs
        for pre, post in (("http://", "/"), ("ws://u@", ":81/p")):
            r = real_parse(pre + h + post)
            expect((r is None) == (want is None), "URL verdict for " + pre, h, want)
            if r is not None:
                expect(r.host == want, "URL host", h, r.host, want)
                expect(r.serialize_host() == R.serialize_host(want), "URL host text", h)
