"""C21: every URL that can be reached is well-formed."""

import gens as G

from . import c03
from .common import *

QUICK = 220000
THOROUGH = 1000000
RULE = (
    "cases are (input, base) and a history of assignments and query parameter "
    "changes; after every step the URL must satisfy the Standard's invariants "
    "(scheme syntax, host/port/credential constraints, no dot segments, percent-encode "
    "sets respected, default port absent); no reference model is used; non-trivial = "
    "accepted and either changed by the history or rich in components"
)

SCHEME_REST = frozenset(R.ALNUM[:26] + R.DIGITS + "+-.")


def gen(src):
    if src.chance(1, 3):
        u, b = G.url_and_base(src)
    else:
        u, b = G.good_url(src), None
    ops = []
    for _ in range(G.length(src, 3, 8, 60)):
        if src.chance(1, 6):
            ops.append(["params", c03.name(src), c03.value(src)])
        else:
            a = src.choice(G.SETTERS)
            ops.append([a, G.setter_value(src, a)])
    return {"url": u, "base": b, "ops": ops}


FIXED = [
    {"url": "http://h/a/%2e%2e/b", "base": None, "ops": [["pathname", "/../%2E./x"], ["host", ""], ["port", "80"], ["protocol", "file"]]},
    {"url": "foo://h:0/", "base": None, "ops": [["hostname", ""], ["host", ""], ["protocol", "http"]]},
]


def encoded(s, encset, what, case, extra=""):
    for c in s:
        expect(ord(c) not in encset and c not in extra, f"{what} holds {c!r} unescaped", case, s)


def invariants(u, case):
    r = P.parse_url(u.href)
    s = u.protocol
    expect(s.endswith(":") and len(s) > 1 and s[0] in R.ALNUM[:26] and all(c in SCHEME_REST for c in s[:-1]), "scheme syntax", case, s)
    scheme = s[:-1]
    special = scheme in R.SPECIAL
    h = u.href
    expect(h.startswith(s) and h.isascii() and h.isprintable(), "href", case, h)
    has_host = h[len(s) :].startswith("//")
    expect(has_host or u.host == u.hostname == u.port == u.username == u.password == "", "parts of an authority without one", case, h)
    if special:
        expect(has_host, "a special URL without a host", case, h)
        expect(u.pathname.startswith("/"), "a special URL without a path", case, h)
        expect(scheme == "file" or u.hostname != "", "a special URL with an empty host", case, h)
    if u.hostname == "" or scheme == "file":
        expect(u.username == u.password == u.port == "", "credentials or port on a URL that cannot have them", case, h)
    if u.port != "":
        expect(u.port.isascii() and u.port.isdigit() and 0 <= int(u.port) <= 65535 and str(int(u.port)) == u.port, "port", case, u.port)
        expect(R.SPECIAL.get(scheme) != int(u.port), "a default port is kept", case, h)
        expect(u.host == u.hostname + ":" + u.port, "host and port", case, u.host)
    else:
        expect(u.host == u.hostname, "host without port", case, u.host)
    encoded(u.username, R.USERINFO, "username", case)
    encoded(u.password, R.USERINFO, "password", case)
    hn = u.hostname
    if hn.startswith("["):
        expect(hn.endswith("]") and all(c in "0123456789abcdef:" for c in hn[1:-1]), "IPv6 host", case, hn)
    elif special:
        encoded(hn, R.C0, "host", case, "".join(R.FORBIDDEN_DOMAIN) + R.ALPHA[26:])
    else:
        encoded(hn, R.C0, "host", case, "".join(R.FORBIDDEN_HOST))
    p = u.pathname
    if h[len(s) :].startswith("/") or p.startswith("/"):
        segs = p.split("/")[1:] if p else []
        for seg in segs:
            expect(seg.lower() not in (".", "..", "%2e", ".%2e", "%2e.", "%2e%2e"), "a dot segment is kept", case, h)
        encoded(p, R.PATH, "path", case, "\\" if special else "")
        expect(isinstance(r.path, list), "path kind", case, h)
    else:
        expect(not special or p, "path", case, h)
        encoded(p, R.C0, "opaque path", case, "?#")
    q = u.search
    if q:
        expect(q[0] == "?" and len(q) > 1, "search", case, q)
        encoded(q[1:], R.SPECIAL_QUERY if special else R.QUERY, "query", case)
    f = u.hash
    if f:
        expect(f[0] == "#" and len(f) > 1, "hash", case, f)
        encoded(f[1:], R.FRAGMENT, "fragment", case)
    for n, v in u.search_params:
        expect(type(n) is str and type(v) is str and not has_surrogate(n, v), "a query parameter is not a scalar value string", case, n, v)


def check(case, ctx):
    try:
        u = P.URL(case["url"], case["base"])
    except URLParseError:
        ctx.label("rejected")
        return
    invariants(u, case)
    mixed_scheme_query = False
    start = u.href
    special0 = u.protocol[:-1] in R.SPECIAL
    for i, op in enumerate(case["ops"]):
        before = u.href
        try:
            if op[0] == "params":
                u.search_params.append(op[1], op[2])
            else:
                setattr(u, op[0], op[1])
        except URLParseError:
            ctx.label("op-rejected")
        invariants(u, (before, op))
        ctx.label("op " + op[0])
    if u.href != start or sum(map(bool, (u.username, u.port, u.search, u.hash))) >= 2:
        ctx.hit()
    ctx.label("special" if special0 else "non-special")
