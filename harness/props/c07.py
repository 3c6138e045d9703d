"""C07: bracketed hosts are IPv6 addresses, exactly as specified."""

import ipaddress

import gens as G

from .common import *

QUICK = 450000
THOROUGH = 3000000
RULE = (
    "cases are (a) eight 16-bit pieces written in a random valid textual form "
    "(compression place, zero padding, case, embedded IPv4) which must parse to those "
    "pieces, (b) IPv6-like strings with syntax errors; verdict and pieces are compared "
    "with the model and with Python's ipaddress, the serialization with the Standard's "
    "compression rule; non-trivial = accepted, or rejected but containing at least two colons"
)


def textual(src, pieces):
    def hx(v):
        s = "%x" % v
        if src.chance(1, 4):
            s = s.zfill(src.between(1, 4))
        return "".join(c.upper() if src.chance(1, 4) else c for c in s) if src.chance(1, 3) else s

    parts = [hx(v) for v in pieces]
    end = 8
    if src.chance(1, 4):
        a, b = pieces[6], pieces[7]
        parts[6:8] = ["%d.%d.%d.%d" % (a >> 8, a & 255, b >> 8, b & 255)]
        end = 6
    zeros = [
        (i, j)
        for i in range(end)
        for j in range(i + 1, end + 1)
        if not any(pieces[i:j])
    ]
    if zeros and src.chance(3, 4):
        i, j = src.choice(zeros)
        return ":".join(parts[:i]) + "::" + ":".join(parts[j:])
    return ":".join(parts)


def pieces(src):
    out = []
    for _ in range(8):
        k = src.draw(6)
        out.append(0 if k < 3 else src.draw(65536) if k < 5 else src.choice([1, 0xF, 0xFF, 0x100, 0xFFF, 0x1000, 0xFFFF]))
    return out


def gen(src):
    if src.chance(1, 2):
        p = pieces(src)
        s = textual(src, p)
        if src.chance(1, 3):
            return {"text": G.mutate_str(src, s), "pieces": None}
        return {"text": s, "pieces": p}
    return {"text": G.ipv6ish(src), "pieces": None}


FIXED = [
    {"text": t, "pieces": None}
    for t in ["::1.2.3.4:5", "1.2.3.4::", "1:2:3:4:5:6:7::", ":::1", "::1." + "9" * 5000 + ".1.1", ":", "::",
              "", "1::2:3:4:5:6:7:8", "::1:2:3:4:5:6:7:8", "1:2:3:4:5:6:1.2.3.4", "1:2:3:4:5:6:7:1.2.3.4",
              "1::", "::1::", "12345::", "1:2:3:4:5:6:7:8:", "::ffff:1.2.3.4", "::1.2.3", "::01.2.3.4"]
]


def check(case, ctx):
    t = case["text"]
    try:
        want = R.parse_ipv6(t, [])
    except R.Fail:
        want = None
    if want is not None or t.count(":") >= 2:
        ctx.hit()
    ctx.label("accepted" if want is not None else "rejected")
    if want is not None and want.count(0) > 1:
        ctx.label("has-zero-run")
    # second, independent oracle
    if "%" not in t and "/" not in t:
        try:
            ip = ipaddress.IPv6Address(t)
        except ValueError:
            ip = None
        if (ip is None) != (want is None):
            raise HarnessError(f"the two oracles disagree on {t!r}")
        if ip is not None:
            b = ip.packed
            if want != tuple(b[i] * 256 + b[i + 1] for i in range(0, 16, 2)):
                raise HarnessError(f"the two oracles disagree on {t!r}")
    for opaque in (False, True):
        err = None
        try:
            got = P.Host.parse("[" + t + "]", opaque)
        except URLParseError as e:
            got, err = None, e
        if got is not None:
            expect(type(got) is tuple and len(got) == 8, "not eight pieces", t, got)
        expect(got == want, "host parser", t, got, want)
        if want is None:
            expect(isinstance(err, IPv6AddressParseError), "failure is not an IPv6AddressParseError", t, err)
    if case["pieces"] is not None:
        expect(list(want or ()) == case["pieces"], "the address denoted is another one", t, want)
    if want is not None:
        s = P.Host.serialize(got)
        expect(s == "[" + R.serialize_ipv6(want) + "]", "serialization", t, s)
        expect(P.Host.serialize(list(want)) == s, "serialization of a list of pieces", t)
        expect(P.Host.parse(s) == want, "serialize/parse round trip", s)
        expect(ipaddress.IPv6Address(s[1:-1]) == ipaddress.IPv6Address(b"".join(x.to_bytes(2, "big") for x in want)), "serialization denotes another address", s)
    if t.isascii() and t.isprintable() and not any(c in t for c in "/?#@\\[]"):
        for pre, post in (("http://", "/"), ("foo://", ":8/p"), ("file://", "")):
            r = real_parse(pre + "[" + t + "]" + post)
            expect((r is None) == (want is None), "URL verdict for " + pre, t, want)
            if r is not None:
                expect(r.host == want and r.serialize_host() == "[" + R.serialize_ipv6(want) + "]", "URL host", t, r.host)
