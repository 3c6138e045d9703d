"""C13: no hidden sharing and no hidden memory between calls and objects."""

import copy

import gens as G

from . import c03, c14, cold
from .common import *

QUICK = 60000
THOROUGH = 600000
RULE = (
    "cases are a base, several references resolved against it, and changes applied "
    "to the results and to the base in a drawn order, plus a list of independent "
    "calls made in one order, again in another, and (a quarter of the cases) each alone in "
    "a process that has made no call before; arguments must come out as they "
    "went in, objects must not move when another one does, and results must not "
    "depend on the calls made before; non-trivial = at least two results from one "
    "base and one change applied"
)


def call(src):
    k = src.draw(18)
    if k < 3:
        u, b = G.url_and_base(src)
        return ["parse", u, b]
    if k == 3:
        return ["host", G.host(src), src.chance(1, 3)]
    if k in (4, 5):
        return ["ascii", G.domain(src), src.chance(1, 2)]
    if k == 6:
        return ["unicode", G.domain(src), src.chance(1, 2)]
    if k == 7:
        return ["valid", G.url_string(src), src.chance(1, 2)]
    if k == 8:
        return ["params", G.urlencoded(src)]
    if k < 11:
        return [
            "hostvalid",
            src.choice(["is_valid", "is_valid_domain", "is_valid_ipv4_address", "is_valid_ipv6_address", "is_valid_opaque_host"]),
            G.host(src),
            src.chance(1, 2),
        ]
    if k == 11:
        return ["scheme", src.choice(["http", "foo", "HTTPS", "urn", "x", "skype"])]
    if k == 12:
        u, b = G.url_and_base(src)
        return ["urlparse", u, b, src.choice(["utf-8", "windows-1252", "shift_jis"]), src.chance(1, 2)]
    if k == 13:
        a = src.choice(G.SETTERS)
        return ["set", G.good_url(src), a, G.setter_value(src, a)]
    if k == 14:
        return ["encode", G.text(src, 4, 12), src.choice(["", "/", "%"]), src.choice(G.ENCODINGS[:12]), src.chance(1, 2)]
    if k == 15:
        u, b = G.url_and_base(src)
        return ["can", u, b]
    if k == 16:
        return ["form", [[c03.name(src), c03.value(src)] for _ in range(src.size(2, 4))]]
    u, b = G.url_and_base(src)
    return ["enc-parse", u, b, src.choice(G.ENCODINGS)]


def near(src, c):
    """a call that differs from c in one argument: what a memory keyed on the
    others would confuse with it"""
    k = c[0]
    c = list(c)
    if k in ("parse", "can"):
        if src.chance(1, 2):
            # the same text, with an encoding or through another entry point
            k2 = src.choice(["enc-parse", "urlparse", "parse", "can"])
            more = {"enc-parse": [src.choice(G.ENCODINGS)], "urlparse": [src.choice(["utf-8", "windows-1252", "shift_jis"]), src.chance(1, 2)]}
            return [k2, c[1], c[2]] + more.get(k2, [])
    if k in ("parse", "can", "enc-parse", "urlparse"):
        i = src.draw(3)
        if i == 1 and k in ("enc-parse", "urlparse"):
            c[3] = src.choice(G.ENCODINGS if k == "enc-parse" else ["utf-8", "windows-1252", "shift_jis"])
        elif i == 2 and k == "urlparse":
            c[4] = not c[4]
        elif i == 2:
            c[2] = None if c[2] is not None and src.chance(1, 2) else G.good_url(src)
        else:
            c[1] = src.choice(["", "#x", "?\u00e9", "/p", G.relative_ref(src)])
    elif k == "set":
        i = src.draw(3)
        if i:
            c[2] = src.choice(G.SETTERS)
        else:
            c[3] = G.setter_value(src, c[2])
    elif k == "encode":
        i = 1 + src.draw(3)
        c[i + 1] = [None, src.choice(["", "/", "%"]), src.choice(G.ENCODINGS[:12]), not c[4]][i]
    elif k == "hostvalid" and src.chance(1, 2):
        c[1] = src.choice(["is_valid", "is_valid_domain", "is_valid_ipv4_address", "is_valid_ipv6_address", "is_valid_opaque_host"])
    elif k in ("ascii", "unicode", "host") and src.chance(1, 2):
        c[0] = src.choice(["ascii", "unicode", "host"])
    elif isinstance(c[-1], bool):
        c[-1] = not c[-1]
    return c


def gen(src):
    b = G.good_url(src)
    refs = [G.relative_ref(src) if src.chance(3, 4) else "" for _ in range(1 + src.size(2, 3))]
    ops = []
    for _ in range(1 + src.size(3, 8)):
        t = src.draw(len(refs) + 1)
        if src.chance(1, 3):
            ops.append([t, "params", c03.name(src), c03.value(src)])
        elif src.chance(1, 6):
            ops.append([t, "record-path", G.word(src)])
        else:
            a = src.choice(G.SETTERS)
            ops.append([t, a, G.setter_value(src, a)])
    calls = [call(src) for _ in range(src.size(3, 6))]
    if calls and src.chance(1, 2):
        for _ in range(1 + src.size(1, 2)):
            # nearly the same call again
            calls.append(near(src, src.choice(calls)))
    case = {"base": b, "refs": refs, "ops": ops, "calls": calls, "cold": src.chance(1, 4)}
    if src.chance(1, 4):
        case["vops"] = c14.validity_ops(src, 1 + src.size(4, 12))
    case["copy"] = src.chance(1, 3)
    return case


FIXED = [
    {"base": "file:///C:/a/b?q#f", "refs": ["", "?x", "#y", "z"], "ops": [[0, "record-path", "zz"], [1, "record-path", "w"], [2, "pathname", "/n"]], "calls": [], "cold": False},
]


def run_call(c):
    k = c[0]
    try:
        if k == "parse":
            return rec_tuple(P.parse_url(c[1], c[2]))
        if k == "enc-parse":
            return rec_tuple(P.parse_url(c[1], c[2], c[3]))
        if k == "host":
            return P.Host.parse(c[1], c[2])
        if k == "ascii":
            return P.IDNA.domain_to_ascii(c[1], c[2])
        if k == "unicode":
            return P.IDNA.domain_to_unicode(c[1], c[2])
        if k == "valid":
            if not c[2]:
                return P.URLValidator.is_valid(c[1])
            v = P.ValidityState()
            return (P.URLValidator.is_valid(c[1], validity=v), tuple(v.error_types), tuple(v.descriptions))
        if k == "params":
            p = P.URLSearchParams(c[1])
            p.append("n", "v")
            p.sort()
            return (tuple(p), str(p))
        if k == "hostvalid":
            f = getattr(P.HostValidator, c[1])
            if not c[3]:
                return f(c[2])
            v = P.ValidityState()
            return (f(c[2], validity=v), tuple(v.error_types), tuple(v.descriptions))
        if k == "scheme":
            return P.URLValidator.is_valid_url_scheme(c[1])
        if k == "urlparse":
            return tuple(P.urlparse(c[1], c[2], c[3], c[4]))
        if k == "set":
            u = P.URL(c[1])
            try:
                setattr(u, c[2], c[3])
            except URLParseError as e:
                return (str(e), url_snapshot(u))
            return url_snapshot(u)
        if k == "encode":
            return (P.string_percent_encode(c[1], c[2], c[3], c[4]), P.string_percent_decode(c[1]))
        if k == "can":
            return P.URL.can_parse(c[1], c[2])
        s = P.urlencode([(n, str(v)) for n, v in c[1]])
        return (s, P.parse_qsl(s.encode()))
    except URLParseError as e:
        return (type(e).__name__, str(e))


def setup():
    cold.start(run_call)


def spoil(x):
    """what a caller may do to a container that is his"""
    if isinstance(x, list):
        x.reverse()
        x.append(("spoiled", "1"))
        x[0] = ("spoiled", "2")
    elif isinstance(x, dict):
        x.clear()
    elif hasattr(x, "__next__"):
        for _ in x:
            pass


def handed_out(case, u, pairs):
    """what the parameters hand out, and what they are made from, belongs to the caller"""
    p = u.search_params
    keep = tuple(p), str(p), len(p), u.href
    n = max(1, len(p))
    out = [list(p), p[:], p[0:], p[::1], p[:n], p[-n:], p[::-1], list(p.entries()), p.entries(), list(p.keys()), p.keys(), list(p.values()), p.values(), iter(p), [p.get_all(k) for k in p.keys()]]
    out.append(P.parse_qsl((u.search[1:]).encode("utf-8")))
    for i, x in enumerate(out):
        spoil(x)
        expect((tuple(p), str(p), len(p), u.href) == keep, "changing a result of the parameters changed them", keep, i, list(p), u.href)
    expect(P.parse_qsl((u.search[1:]).encode("utf-8")) == list(keep[0]), "changing a result of parse_qsl changed the next one", keep)
    # made from tuples, lists, or other parameters
    for kind in (lambda l: [tuple(x) for x in l], lambda l: tuple(map(tuple, l)), lambda l: tuple(map(list, l)), lambda l: p, lambda l: p[:]):
        a = kind([list(x) for x in keep[0]] if keep[0] else [[n, str(v)] for n, v in pairs])
        a0 = copy.deepcopy(a) if a is not p else keep
        q = P.URLSearchParams(a)
        q0 = tuple(q)
        enc = P.urlencode(a)
        expect(P.urlencode(a) == enc, "urlencode() changed its argument", keep)
        q.append("x", "y")
        q.sort()
        q.delete("x")
        expect((a == a0) if a is not p else (tuple(p), str(p), len(p), u.href) == keep, "the parameters changed what they were made from", keep, a, list(q))
        if isinstance(a, list):
            q1 = tuple(q)
            spoil(a)
            expect(tuple(q) == q1, "the parameters follow the list they were made from", keep, q1, list(q))
            spoil(P.URLSearchParams(q)[:])


def check(case, ctx):
    c14.validity_history(case.get("vops", []))
    first = [run_call(c) for c in case["calls"]]
    for c, x in zip(case["calls"], first):
        ctx.label("call " + c[0])
        if case["cold"]:
            fresh = cold.run(c)
            expect(fresh == ("ok", x), "a call gives another result than in a fresh process", c, x, fresh)
    base = case["base"]
    try:
        bu = P.URL(base)
    except URLParseError:
        ctx.label("base-rejected")
        return
    brec = P.parse_url(base)
    before_u, before_r = url_snapshot(bu), copy.deepcopy(rec_tuple(brec))
    urls, recs = [], []
    for ref in case["refs"]:
        for store, f in ((urls, lambda: P.URL(ref, bu)), (recs, lambda: P.parse_url(ref, brec))):
            try:
                store.append(f())
            except URLParseError:
                store.append(None)
        P.URL.can_parse(ref, bu)
        P.URLValidator.is_valid(ref, brec)
        expect(url_snapshot(bu) == before_u, "resolving changed the base URL", base, ref, bu.href)
        expect(rec_tuple(brec) == before_r, "resolving changed the base record", base, ref, rec_tuple(brec))
    fresh = [real_parse(ref, base) for ref in case["refs"]]
    for ref, f, u, r in zip(case["refs"], fresh, urls, recs):
        expect((f is None) == (u is None) == (r is None), "verdict depends on earlier resolutions", base, ref)
        if f is not None:
            expect(u.href == f.href and rec_tuple(r) == rec_tuple(f), "result depends on earlier resolutions", base, ref, u.href, f.href)
    if case.get("copy"):
        # a copy is a URL of its own, with parameters of its own
        twin = [copy.deepcopy(bu)] + [copy.deepcopy(u) for u in urls]
        for u, w in zip([bu] + urls, twin):
            expect((u is None) == (w is None) and (u is None or (u == w and url_snapshot(u) == url_snapshot(w))), "a copy differs", base, u, w)
        urls = urls + twin
        rtwin = [copy.deepcopy(brec)] + [copy.deepcopy(r) for r in recs]
        recs = recs + rtwin
    # changes to one object leave every other one alone
    all_u = [bu] + urls
    all_r = [brec] + recs
    seen_u = [x and url_snapshot(x) for x in all_u]
    seen_r = [x and rec_tuple(x) for x in all_r]
    refs0 = [base] + case["refs"]
    changed = 0
    for t, a, *v in case["ops"]:
        if case.get("copy") and changed % 2:
            t += len(refs0)
        if all_u[t] is None:
            continue
        if a == "params":
            all_u[t].search_params.append(v[0], v[1])
            P.URLSearchParams(all_r[t]).append(v[0], v[1])
        elif a == "record-path":
            if isinstance(all_r[t].path, list):
                all_r[t].path.append(v[0])
                all_r[t].shorten_path()
                all_r[t].path.insert(0, v[0])
        else:
            try:
                setattr(all_u[t], a, v[0])
            except URLParseError:
                pass
        changed += 1
        for i, x in enumerate(all_u):
            if i != t and x is not None:
                expect(url_snapshot(x) == seen_u[i], "changing one URL changed another", base, case["refs"], [t, a, v], i, x.href)
        for i, x in enumerate(all_r):
            if i != t and x is not None:
                expect(rec_tuple(x) == seen_r[i], "changing one record changed another", base, case["refs"], [t, a, v], i, x.href)
        seen_u[t], seen_r[t] = url_snapshot(all_u[t]), rec_tuple(all_r[t])
        # reading has no effect
        expect(url_snapshot(all_u[t]) == seen_u[t] and repr(all_u[t]) == repr(all_u[t]), "reading changed the URL", base)
    # the same calls, in another order and after all that
    second = [run_call(c) for c in reversed(case["calls"])][::-1]
    expect(first == second, "results depend on earlier calls", [c for c, x, y in zip(case["calls"], first, second) if x != y], [(x, y) for x, y in zip(first, second) if x != y])
    # containers handed in stay as they were
    pairs = [[n, v] for op in case["ops"] if op[1] == "params" for n, v in [op[2:]]]
    keep = copy.deepcopy(pairs)
    q = P.URLSearchParams(pairs)
    q.append("x", "y")
    q.sort()
    d = {n: v for n, v in pairs}
    kd = dict(d)
    q2 = P.URLSearchParams(d)
    q2.set("x", "y")
    expect(pairs == keep and d == kd, "a container argument was modified", pairs, keep)
    if pairs:
        pairs[0][1] = "changed"
        pairs.append(["later", "1"])
        expect(not q.has("later") and "changed" not in q.get_all(keep[0][0]), "URLSearchParams follows the list it was made from", keep)
    handed_out(case, urls[0] if urls[0] is not None else bu, pairs)
    if changed and len(case["refs"]) > 1:
        ctx.hit()
    ctx.label("objects=%d" % min(5, sum(x is not None for x in all_u)))
