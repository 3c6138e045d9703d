"""C08: domains go through UTS #46 exactly as the Standard prescribes."""

import gens as G

from .common import *

QUICK = 240000
THOROUGH = 1500000
RULE = (
    "cases are a domain and a sequence of conversions (host parser, domain-to-ASCII "
    "and domain-to-Unicode, each strict or not, in any order and repeated); every "
    "result is compared with the model (ICU driven with the Standard's parameters), "
    "then equivalent spellings (ASCII case, percent-encoding, full-stop variants, the "
    "result itself) must give the same host; non-trivial = the domain is not already "
    "plain lower-case ASCII"
)
ASSUMPTIONS = ["ICU (via icupy) implements UTS #46"]

OPS = ["host", "ascii", "ascii!", "unicode", "unicode!"]


def gen(src):
    d = G.domain(src)
    if src.chance(1, 12):
        d = G.mutate_str(src, d)
    if src.chance(1, 60):
        # names that ICU itself gives up on, or nearly
        d = src.choice(["\u3042", "a", "\u00df", "\u0915\u094d\u200d", "1"]) * src.choice([59, 63, 64, 300, 2000]) + "." + d
    ops = [src.choice(OPS) for _ in range(1 + src.size(3, 6))]
    others = [G.domain(src) for _ in range(src.size(1, 2))]
    flips = [src.draw(2) for _ in range(8)]
    return {"domain": d, "ops": ops, "others": others, "flips": flips}


FIXED = [
    {"domain": d, "ops": OPS, "others": [], "flips": [0, 1] * 4}
    for d in G.SEEDS["domains"] + ["\ud800", "a\udfffb.c", "\ud83c\udf08", "a_b", "a" * 64, "a..b", "xn--a"]
]


def outcome(f, *a):
    try:
        return f(*a)
    except IDNAError:
        return "!IDNAError"
    except IPv4AddressParseError:
        return "!IPv4"
    except HostParseError:
        return "!HostParseError"


KIND = {"idna": "!IDNAError", "domain": "!HostParseError", "host": "!HostParseError", "ipv4": "!IPv4"}


def model(op, d):
    try:
        if op == "host":
            return R.parse_host(d, False, [])
        if op.startswith("ascii"):
            return R.domain_to_ascii(d, op.endswith("!"))
        return R.domain_to_unicode(d, op.endswith("!"))
    except R.Fail as f:
        return KIND[f.kind]


def reported(op, d):
    """what a validity object hears of a conversion, and what it should hear"""
    errs = []
    v = P.ValidityState()
    f, g = (P.IDNA.domain_to_ascii, R.domain_to_ascii) if op.startswith("ascii") else (P.IDNA.domain_to_unicode, R.domain_to_unicode)
    outcome(lambda: f(d, op.endswith("!"), validity=v))
    try:
        g(d, op.endswith("!"), errs)
    except R.Fail:
        pass
    return v.error_types, errs


def real(op, d):
    if op == "host":
        return outcome(P.Host.parse, d)
    if op.startswith("ascii"):
        return outcome(P.IDNA.domain_to_ascii, d, op.endswith("!"))
    return outcome(P.IDNA.domain_to_unicode, d, op.endswith("!"))


def check(case, ctx):
    d = case["domain"]
    if d == "" or d.startswith("["):
        return
    if not (d.isascii() and d.islower()):
        ctx.hit()
    for i, op in enumerate(case["ops"]):
        for x in [d] + case["others"]:
            if x == "" or x.startswith("["):
                continue
            want, got = model(op, x), real(op, x)
            ctx.label(op + (":error" if str(want).startswith("!") else ":ok"))
            expect(got == want and type(got) is type(want), f"{op} (step {i})", x, got, want)
            if op != "host" and x is d:
                types, errs = reported(op, x)
                expect(types == errs, f"{op}: reported errors", x, types, errs)
    h = real("host", d)
    if not isinstance(h, str) or h.startswith("!"):
        return
    expect(h.isascii() and not any(c in R.FORBIDDEN_DOMAIN for c in h) and h == h.lower(), "a parsed domain holds forbidden code points", d, h)
    # equivalent spellings
    flips = case["flips"]
    swapped = "".join(
        c.swapcase() if c.isascii() and flips[i % len(flips)] and (i < 2 or "%" not in d[i - 2 : i]) else c
        for i, c in enumerate(d)
    )
    expect(real("host", swapped) == h, "ASCII case changes the host", d, swapped)
    dots = "".join("\u3002\uff0e\uff61"[i % 3] if c == "." and flips[i % len(flips)] else c for i, c in enumerate(d))
    expect(real("host", dots) == h, "a full-stop variant changes the host", d, dots)
    if "%" not in d and not has_surrogate(d):
        enc = "".join(
            "".join("%%%02X" % b for b in c.encode()) if flips[i % len(flips)] else c for i, c in enumerate(d)
        )
        expect(real("host", enc) == h, "percent-encoding changes the host", d, enc)
        # through whole URLs
        if d.isprintable() and not any(c in d for c in "/\\?#@:[]"):
            for pre, post in (("http://", ""), ("wss://u:p@", ":7/x?y#z"), ("ftp://", "/")):
                r = real_parse(pre + d + post)
                expect(r is not None and r.host == h, "URL host for " + pre, d, r and r.host, h)
    again = real("host", h)
    want = model("host", h)
    expect(again == want, "parsing the result again", d, h, again, want)
    ctx.label("fixpoint" if again == h else "not-fixpoint")
    # Unicode round trip, where the model has one
    errs = []
    try:
        u = R.domain_to_unicode(h, False, errs)
        back = R.domain_to_ascii(u, False)
    except R.Fail:
        return
    if not errs and back == h:
        ctx.label("unicode-round-trip")
        expect(
            P.IDNA.domain_to_ascii(P.IDNA.domain_to_unicode(h)) == h,
            "ToASCII(ToUnicode(x)) is not x",
            h,
        )
