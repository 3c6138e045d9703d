"""C17: URL equality is an equivalence that matches what URLs denote."""

import gens as G

from .common import *

QUICK = 128000
THOROUGH = 1200000
RULE = (
    "cases are three inputs that are often respellings of one another (case, dot "
    "segments, ports, escapes, tabs, fragments); ==, != and equals() with and without "
    "fragments are compared with equality of the model's records, for URL and for the "
    "record type; non-trivial = at least two are accepted"
)


def respell(src, s):
    k = src.draw(10)
    if k == 0:
        return s
    if k == 1:
        i = src.draw(len(s) + 1)
        return s[:i] + src.choice("\t\n") + s[i:]
    if k == 2:
        i = s.find(":")
        return s[:i].upper() + s[i:]
    if k == 3:
        i = s.find("#")
        return (s if i < 0 else s[:i]) + src.choice(["", "#", "#x", "#y"])
    if k == 4:
        i = s.find("?")
        return s[:i] + src.choice(["", "?", "?x"]) if i >= 0 else s + src.choice(["?", "?x", "#"])
    if k == 5:
        return " " + s
    if k == 6:
        i = s.find("://")
        return s[: i + 3] + "\\" + s[i + 3 :] if i > 0 and src.chance(1, 2) else s.replace("/", "\\")
    if k == 7:
        i = s.rfind("/")
        return s[: i + 1] + src.choice(["./", "a/../", "%2e/", "..", "b/%2E%2e/"]) + s[i + 1 :]
    if k == 8:
        return G.mutate_str(src, s)
    return s.replace("h", "H")


def gen(src):
    a = G.good_url(src)
    b = respell(src, a)
    c = respell(src, b) if src.chance(2, 3) else G.url_string(src)
    return {"urls": [a, b, c]}


FIXED = [{"urls": ["http://h", "http://h?", "http://h#"]}, {"urls": ["foo:/.//p", "foo:/..//p", "foo://p"]}]


def check(case, ctx):
    ms = [model_parse(s) for s in case["urls"]]
    rs = [real_parse(s) for s in case["urls"]]
    pairs = [(m, r, P.URL(s)) for s, m, r in zip(case["urls"], ms, rs) if m is not None and r is not None]
    if len(pairs) >= 2:
        ctx.hit()
    for m, r, u in pairs:
        for n, q, v in pairs:
            for ex in (False, True):
                same = m.href(ex) == n.href(ex)
                got = [r.equals(q, ex), r.equals(q, exclude_fragments=ex), u.equals(v, ex), u.equals(v, exclude_fragments=ex)]
                expect(all(g is same for g in got), f"equals(exclude_fragments={ex})", m.href(), n.href(), got, same)
            same = m.tup() == n.tup()
            ctx.label("equal" if same else "different")
            got = [r == q, u == v, not (r != q), not (u != v), r.equals(q), u.equals(v)]
            expect(all(g is same for g in got), "==", m.tup(), n.tup(), got)
        for other in (r.href, None, 0, m.tup(), object()):
            expect(not (u == other) and u != other and not (r == other) and r != other, "equal to a non-URL", m.href(), other)
        expect(not (u == r) and not (r == u), "a URL equals a record", m.href())
        # a copy made by another route
        expect(P.URL(u.href) == u and P.parse_url(r.href) == r, "a re-parsed URL is not equal", u.href)
        v = P.URL(u.href)
        v.hash = "zz" if u.hash != "#zz" else "yy"
        expect(v != u and u.equals(v, exclude_fragments=True), "a changed fragment", u.href)
        v.search = "?zz" if u.search != "?zz" else "?yy"
        expect(v != u and not u.equals(v, exclude_fragments=True), "a changed query", u.href)
