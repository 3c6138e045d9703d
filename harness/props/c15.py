"""C15: the host validators accept exactly the Standard's valid host strings."""

import gens as G

from .common import *

QUICK = 800000
THOROUGH = 2000000
RULE = (
    "cases are host strings validated in a drawn order of the five validators with "
    "one reused validity object; each verdict is compared with an independent "
    "definition of the valid host/domain/IPv4/IPv6/opaque-host strings, and a valid "
    "host must parse; non-trivial = valid for at least one validator"
)
ASSUMPTIONS = ["ICU (via icupy) implements UTS #46"]
NAMES = ["is_valid", "is_valid_domain", "is_valid_ipv4_address", "is_valid_ipv6_address", "is_valid_opaque_host"]


def gen(src):
    k = src.draw(8)
    if k < 2:
        h = G.domain(src)
    elif k < 4:
        h = G.ipv4ish(src)
    elif k == 4:
        h = "[" + G.ipv6ish(src) + "]"
    elif k == 5:
        h = G.ipv6ish(src)
    elif k == 6:
        h = "".join(G.char(src) for _ in range(G.length(src, 4, 12)))
    else:
        h = G.host(src)
    if src.chance(1, 10):
        h = G.mutate_str(src, h)
    more = [G.host(src) for _ in range(src.draw(3))]
    order = [src.draw(len(NAMES)) for _ in range(1 + src.draw(6))]
    return {"host": h, "order": order, "more": more}


FIXED = [
    {"host": h, "order": [0, 1, 2, 3, 4]}
    for h in ["", "a..b", "127.0.0x0.1", "[1::1::1]", "1.2.3.4", "1.2.3.4.", "01.2.3.4", "1.2.3", "::1", "[::1]", "a%20b", "a%", "\ud800", "a_b", "a" * 64, "%41", "1" * 5000 + ".1.1.1"]
]


def v4(h):
    parts = h.split(".")
    return len(parts) == 4 and all(
        p != "" and len(p) <= 3 and all(c in R.DIGITS for c in p) and (p == "0" or p[0] != "0") and int(p) <= 255
        for p in parts
    )


def v6(h):
    try:
        R.parse_ipv6(h, [])
        return True
    except R.Fail:
        return False


def dom(h):
    try:
        R.domain_to_ascii(h, True)
        errs = []
        R.domain_to_unicode(h, True, errs)
        return not errs
    except R.Fail:
        return False


def opaque(h):
    if h == "":
        return False
    if h[0] == "[" and h[-1] == "]":
        return v6(h[1:-1])
    for i, c in enumerate(h):
        if c in R.FORBIDDEN_HOST:
            return False
        if c == "%":
            if not (len(h) > i + 2 and h[i + 1] in R.HEX and h[i + 2] in R.HEX):
                return False
        elif not R.is_url_code_point(c):
            return False
    return True


def host(h):
    if h.startswith("[") and h.endswith("]"):
        return v6(h[1:-1])
    if R.ends_in_a_number(h):
        return v4(h)
    return dom(h)


ORACLE = dict(zip(NAMES, (host, dom, v4, v6, opaque)))


def check(case, ctx):
    h0 = case["host"]
    hosts = [h0] + case.get("more", [])
    v = P.ValidityState()
    for k, i in enumerate(case["order"]):
        h = hosts[k % len(hosts)]
        name = NAMES[i]
        f = getattr(P.HostValidator, name)
        if name == "is_valid" and h == "[":
            continue
        want = ORACLE[name](h)
        got = f(h, validity=v)
        fresh = P.ValidityState()
        f(h, validity=fresh)
        expect(
            fresh.error_types == v.error_types and fresh.descriptions == v.descriptions,
            name + ": a reused validity object differs from a fresh one", h, v, fresh,
        )
        ctx.label(name + (":valid" if want else ":invalid"))
        if want:
            ctx.hit()
        expect(got is want, name, h, got, v)
        expect(f(h) is want, name + " without a validity object", h)
        n = v.validation_errors
        expect(v.valid is want and (n == 0) is want and n == len(v.error_types) == len(v.descriptions), name + ": verdict and validity object", h, got, v)
    h = h0
    if host(h) and h != "[" and h.isascii() and "%" not in h:
        try:
            P.Host.parse(h)
        except URLParseError as e:
            # a valid domain string may still be refused only for a reason the
            # Standard gives
            try:
                R.parse_host(h, False, [])
            except R.Fail:
                return
            raise Violation(f"a valid host does not parse: {h!r}: {e}")
    if opaque(h):
        try:
            P.Host.parse(h, True)
        except URLParseError as e:
            raise Violation(f"a valid opaque host does not parse: {h!r}: {e}")
