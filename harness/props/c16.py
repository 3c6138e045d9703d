"""C16: origins follow the Standard, and same-origin is an equivalence."""

import gens as G

from .common import *

QUICK = 220000
THOROUGH = 1200000
RULE = (
    "cases are three related URLs (variants of one another in scheme, host spelling, "
    "port, path, blob wrapping) and optional document domains, with some origins made by hand; each origin is "
    "compared with the model, its text with the Standard's serialization and with "
    "the origin of its own text; the same-origin relations are compared with their "
    "definition and checked to be reflexive, symmetric and transitive; non-trivial = "
    "at least two of the URLs have a tuple origin"
)

HOSTS = ["h", "H", "example.com", "127.0.0.1", "0x7f.1", "2130706433", "[::1]", "[0:0::1]", "bücher.de", "xn--bcher-kva.de", "h."]


def variant(src):
    k = src.draw(10)
    if k < 6:
        s = src.choice(["http", "https", "ws", "wss", "ftp", "file", "foo", "HTTP"]) + "://"
        s += src.choice(["", "", "u@", "u:p@"]) + src.choice(HOSTS)
        s += src.choice(["", ":80", ":443", ":21", ":8080", ":0", ":", ":080"])
        s += src.choice(["", "/", "/a/b", "/?q", "/#f", "?q=1"])
    elif k == 6:
        s = G.good_url(src)
    elif k == 7:
        s = G.absolute_url(src)
    else:
        return src.choice(["data:x", "about:blank", "mailto:a", "foo:/p", "javascript:1", "file:///x"])
    if src.chance(1, 5):
        s = src.choice(["blob:", "blob:", "BLOB:", "blob:/", "blob: ", "blob:blob:"]) + s
        if src.chance(1, 4):
            s += src.choice(["?x", "#y", " "])
    return s


# hosts that look alike without being the same, and the reverse
HAND_HOSTS = ["h", "1", 1, 0, "0", "0.0.0.1", "", None, "None", [0] * 7 + [1], [0] * 8, "[::1]", "::1", "a.b", 2**32 - 1]


def hand(src):
    """an origin made by hand"""
    h = src.choice(HAND_HOSTS)
    return [
        src.choice(["http", "https", "foo", "file"]),
        h,
        src.choice([None, None, 0, 80, 443, 65535]),
        src.choice([None, None, None, "", "h", "x", "1", "x.h", "H", "xn--h", "h:80"]),
    ]


def gen(src):
    return {
        "hand": [hand(src) for _ in range(src.size(2, 4))],
        "urls": [variant(src) for _ in range(3)],
        "domains": [src.choice([None, None, "h", "example.com", "", "H", "a.h", "h.", "com", "1"]) for _ in range(3)],
    }


FIXED = [
    {"hand": [["http", 1, None, None], ["http", "1", None, None]], "urls": ["blob:https://h:443/x", "https://h/", "wss://h/"], "domains": [None, "h", "h"]},
    {"hand": [["http", 1, None, None], ["http", "1", None, None]], "urls": ["blob:file:///x", "file:///x", "data:x"], "domains": [None, None, None]},
]


def check(case, ctx):
    origins = []
    hands = []
    for s in case["urls"]:
        m = model_parse(s)
        r = real_parse(s)
        if m is None or r is None:
            expect(m is None and r is None, "verdict", s)
            continue
        u = P.URL(s)
        want = m.origin()
        got = r.origin
        if want is None:
            expect(got is None, "an opaque origin expected", s, got)
            expect(u.origin == "null", "the opaque origin is not 'null'", s, u.origin)
            ctx.label("opaque")
            continue
        expect(isinstance(got, P.Origin), "a tuple origin expected", s, got)
        expect((got.scheme, got.host, got.port, got.domain) == want + (None,), "origin", s, got, want)
        text = R.serialize_origin(want)
        expect(u.origin == text == str(got), "serialized origin", s, u.origin, text)
        back = P.URL(text)
        expect(back.origin == text, "the origin of an origin's text is another one", s, text, back.origin)
        # path, query, fragment and credentials have no say
        if m.scheme != "blob":
            for a, v in (("pathname", "/zz"), ("search", "zz"), ("hash", "zz"), ("username", "zz"), ("password", "zz")):
                setattr(u, a, v)
                expect(u.origin == text, f"assigning {a} changed the origin", s, u.origin)
        ctx.label("tuple")
        origins.append(got)
    if len(origins) >= 2:
        ctx.hit()
    for sc, h, p, d in case["hand"]:
        o = P.Origin(sc, tuple(h) if isinstance(h, list) else h, p, d)
        hs = "" if h is None else R.serialize_host(o.host)
        expect(str(o) == f"{sc}://{hs}" + ("" if p is None else f":{p}"), "text of a hand-made origin", list(o), str(o))
        ctx.label("hand-made")
        hands.append(o)
    dom = [P.Origin(o.scheme, o.host, o.port, d) for o, d in zip(origins, case["domains"])]
    for o in origins + dom + hands:
        expect(o.is_same_origin(o) is True, "not reflexive", o)
        expect(o.is_same_origin_domain(o) is True, "same origin-domain is not reflexive", o)
    every = origins + dom + hands
    for a in every:
        for b in every:
            so = (a.scheme, a.host, a.port) == (b.scheme, b.host, b.port)
            expect(a.is_same_origin(b) is so, "same origin", a, b)
            if a.domain is not None and b.domain is not None:
                sd = a.scheme == b.scheme and a.domain == b.domain
            elif a.domain is None and b.domain is None:
                sd = so
            else:
                sd = False
            expect(a.is_same_origin_domain(b) is sd, "same origin-domain", a, b)
            if sd and so:
                ctx.label("same")
            if a in hands or b in hands:
                continue
            expect((str(a) == str(b)) == so, "equal texts but different origins (or the reverse)", a, b)
