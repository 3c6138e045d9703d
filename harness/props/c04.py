"""C04: a URL and its search_params stay two views of one query."""

import gens as G

from . import c03
from .common import *

QUICK = 180000
THOROUGH = 1200000
RULE = (
    "cases are a URL and a history mixing changes through url.search_params with "
    "assignments to search, href and other properties; after each step the URL's "
    "properties, the parameter list seen through an old and a fresh handle, and the "
    "serialized query are compared with the model; non-trivial = at least one change "
    "through each side took effect"
)
ASSUMPTIONS = ["the reference model harness/refurl.py (see C01)"]


def gen(src):
    url = G.good_url(src)
    if src.chance(1, 4):
        url = src.choice(["data:x  ", "foo:a b   ", "mailto:a   ", "data: "]) + "?" + G.urlencoded(src)
        if src.chance(1, 3):
            url += "#" + G.fragment(src)
    ops = []
    for _ in range(1 + G.length(src, 5, 12, 80)):
        k = src.draw(10)
        if k < 6:
            o = src.choice(["append", "set", "delete", "delete2", "sort", "clear", "read", "detached"])
            if o in ("append", "set", "delete2"):
                ops.append([o, c03.name(src), c03.value(src)])
            elif o == "delete":
                ops.append([o, c03.name(src)])
            else:
                ops.append([o])
        else:
            a = src.choice(["search", "search", "search", "href", "hash", "pathname", "protocol", "host"])
            ops.append(["=" + a, G.setter_value(src, a)])
    return {"url": url, "ops": ops}


FIXED = [
    {"url": "http://h/?a=~", "ops": [["append", "b", "%41"], ["=search", ""], ["append", "c", "~"]]},
    {"url": "data:x  ?a#f", "ops": [["=hash", ""], ["delete", "a"]]},
]


def check(case, ctx):
    try:
        m = R.ModelURL(case["url"])
    except R.Fail:
        ctx.label("start-rejected")
        return
    u = P.URL(case["url"])
    handle = u.search_params
    through = [0, 0]
    for i, op in enumerate(case["ops"]):
        o = op[0]
        before = m.snapshot()
        here = f"step {i} {op!r:.120} on {before['href']!r:.160}"
        via_params = True
        if o == "append":
            m.params.append((c03.w(op[1]), c03.w(op[2])))
            handle.append(op[1], op[2])
        elif o == "set":
            n, v = c03.w(op[1]), c03.w(op[2])
            idx = [j for j, t in enumerate(m.params) if t[0] == n]
            if idx:
                m.params = [
                    (n, v) if j == idx[0] else t
                    for j, t in enumerate(m.params)
                    if j not in idx[1:]
                ]
            else:
                m.params.append((n, v))
            handle.set(op[1], op[2])
        elif o == "delete":
            m.params = [t for t in m.params if t[0] != c03.w(op[1])]
            handle.delete(op[1])
        elif o == "delete2":
            m.params = [t for t in m.params if t != (c03.w(op[1]), c03.w(op[2]))]
            handle.delete(op[1], op[2])
        elif o == "sort":
            m.params = c03.model_sort(m.params)
            handle.sort()
        elif o == "clear":
            names = [t[0] for t in m.params]
            for n in names:
                u.search_params.delete(n)
            via_params = bool(names)
            m.params = []
        elif o == "read":
            via_params = False
            list(handle), handle.get("a"), handle.has("a"), handle.get_all("a"), str(handle), len(handle)
        elif o == "detached":
            via_params = False
            q = P.URLSearchParams(handle)
            q.append("zz", "1")
            q.sort()
            q2 = P.URLSearchParams(u.search)
            q2.set("a", "9")
            q2.delete("b")
        else:
            via_params = False
            m.set(o[1:], op[1])
            try:
                setattr(u, o[1:], op[1])
            except URLParseError:
                pass
        if via_params:
            m.params_changed()
        want = m.snapshot()
        ctx.label(o)
        if want != before:
            through[0 if via_params else 1] += 1
        d = diff(url_snapshot(u), want)
        expect(not d, "properties after " + here, d)
        expect(list(handle) == want["params"], "an earlier search_params handle after " + here, list(handle), want["params"])
        if via_params:
            q = str(handle)
            expect(u.search == ("?" + q if q else ""), "search is not the serialized list after " + here, u.search, q)
            expect(("?" + q in u.href) if q else True, "href after " + here, u.href)
    if through[0] and through[1]:
        ctx.hit()
