"""C03: URLSearchParams is an ordered multimap, for every history."""

import math

import gens as G

from .common import *

QUICK = 300000
THOROUGH = 2000000
RULE = (
    "cases are a constructor argument (none, string, pairs, dict, copy) and a history "
    "of append/delete/get/get_all/has/set/sort and container operations with str, int "
    "and float values; results and the whole list are compared with a plain list "
    "model after every step; non-trivial = the history changed the list at least "
    "twice and some name occurs twice or a lookup hit"
)

NAMES = ["a", "b", "", "A", "a b", "%61", "100%25", "\ufb03", "\U0001f308", "=", "&", "+", "\ud83c", "1", "ab"]


def name(src):
    if src.chance(1, 12):
        # names that differ late
        return src.choice(["a", "ab", "\u00e9", "\U0001f308"]) * src.choice([1, 2, 4, 8, 16, 40]) + src.choice(["", "a", "b", "\uffff", "\U0001f308"])
    if src.chance(3, 4):
        return src.choice(NAMES)
    if src.chance(1, 3):
        return "".join(G.char(src) for _ in range(G.length(src, 2, 4)))
    return G.form_piece(src)


def value(src):
    k = src.draw(10)
    if k < 4:
        return src.choice(["1", "2", "3", "", "a", "%41", "100%25", "1.0", "1.5", "~", "é", "\udf08", "None"])
    if k < 7:
        return G.form_piece(src)
    if k == 7:
        return src.choice([0, 1, 2, -1, 3, 10**20, -(10**40), True, False]) if src.chance(1, 2) else src.draw(1000)
    if k == 8:
        return src.choice([1.0, 1.5, 0.0, -0.0, -0.5, 1e16, 1e22, 1e100, 2.5e-7, 3.0, math.inf, -math.inf, math.nan, 0.1])
    return G.text(src, 3, 10)


def pairs(src):
    return [[name(src), value(src)] for _ in range(G.length(src, 3, 6, 120))]


OPS = ["append", "append", "append", "set", "set", "delete", "delete2", "get", "get_all", "has", "has2", "sort",
       "contains", "index", "slice", "iterate", "str", "add", "copy", "eq", "reparse"]


def gen_op(src):
    op = src.choice(OPS)
    if op in ("append", "set", "delete2", "has2"):
        return [op, name(src), value(src)]
    if op in ("delete", "get", "get_all", "has", "contains"):
        return [op, name(src)]
    if op == "index":
        return [op, src.between(-8, 8)]
    if op == "slice":
        ends = [src.between(-5, 5) if src.chance(3, 4) else None for _ in range(2)]
        return [op] + ends + [src.choice([None, None, 1, 2, -1, -2, 3])]
    if op == "add":
        return [op, src.choice(["", "x", "&a=b"])]
    return [op]


def gen(src):
    kind = src.choice(["str", "none", "pairs", "dict", "copy", "str?", "tuples"])
    if kind in ("str", "str?"):
        init = ("?" if kind == "str?" else "") + (
            G.urlencoded(src) if src.chance(3, 4) else G.text(src, 5, 30)
        )
        kind = "str"
    elif kind == "none":
        init = None
    else:
        init = pairs(src)
        if kind != "dict":
            # names may be numbers there
            init = [[value(src), v] if src.chance(1, 12) else [n, v] for n, v in init]
    return {"kind": kind, "init": init, "ops": [gen_op(src) for _ in range(1 + G.length(src, 9, 20, 100))]}


def w(v):
    return R.usv(str(v))


def model_init(kind, init):
    if kind == "none":
        return []
    if kind == "str":
        s = init[1:] if init.startswith("?") else init
        return R.parse_urlencoded(R.usv(s).encode("utf-8"))
    ps = [(w(n), w(v)) for n, v in init]
    if kind == "dict":
        d = {}
        for n, v in init:
            d[n] = v
        out = {}
        for n, v in d.items():
            out[w(n)] = w(v)
        return list(out.items())
    return ps


def u16(s):
    return s.encode("utf-16-be")


def model_sort(items):
    """stable insertion sort by UTF-16 code units"""
    out = []
    for it in items:
        i = len(out)
        while i > 0 and u16(out[i - 1][0]) > u16(it[0]):
            i -= 1
        out.insert(i, it)
    return out


FIXED = [
    {"kind": "none", "init": None, "ops": [["append", "a", "100%25"], ["get", "a"], ["str"]]},
    {"kind": "none", "init": None, "ops": [["append", "a", 1], ["has2", "a", 1], ["delete2", "a", 1]]},
    {"kind": "str", "init": "a=~", "ops": [["str"], ["reparse"]]},
    {"kind": "str", "init": "\ufb03&\U0001f308", "ops": [["sort"]]},
]


def build(kind, init):
    if kind == "none":
        return P.URLSearchParams()
    if kind == "str":
        return P.URLSearchParams(init)
    if kind == "dict":
        return P.URLSearchParams({n: v for n, v in init})
    if kind == "tuples":
        return P.URLSearchParams(tuple((n, v) for n, v in init))
    ps = P.URLSearchParams([[n, v] for n, v in init])
    if kind == "copy":
        return P.URLSearchParams(ps)
    return ps


def check(case, ctx):
    kind = case["kind"]
    p = build(kind, case["init"])
    m = model_init(kind, case["init"])
    ctx.label("init=" + kind)
    changes = hits = 0
    expect(list(p) == m, "initial list", case["init"], list(p), m)
    for i, op in enumerate(case["ops"]):
        o = op[0]
        before = list(m)
        got = want = None
        if o == "append":
            m.append((w(op[1]), w(op[2])))
            got = p.append(op[1], op[2])
        elif o == "set":
            n, v = w(op[1]), w(op[2])
            idx = [j for j, t in enumerate(m) if t[0] == n]
            if idx:
                m = [(n, v) if j == idx[0] else t for j, t in enumerate(m) if j not in idx[1:]]
            else:
                m.append((n, v))
            got = p.set(op[1], op[2])
        elif o == "delete":
            m = [t for t in m if t[0] != w(op[1])]
            got = p.delete(op[1])
        elif o == "delete2":
            m = [t for t in m if t != (w(op[1]), w(op[2]))]
            got = p.delete(op[1], op[2])
        elif o == "get":
            want = next((t[1] for t in m if t[0] == w(op[1])), None)
            got = p.get(op[1])
        elif o == "get_all":
            want = tuple(t[1] for t in m if t[0] == w(op[1]))
            got = tuple(p.get_all(op[1]))
            hits += len(want) > 1
        elif o == "has":
            want = any(t[0] == w(op[1]) for t in m)
            got = p.has(op[1])
            hits += want
        elif o == "contains":
            want = any(t[0] == w(op[1]) for t in m)
            got = op[1] in p
        elif o == "has2":
            want = (w(op[1]), w(op[2])) in m
            got = p.has(op[1], op[2])
            hits += want
        elif o == "sort":
            m = model_sort(m)
            got = p.sort()
        elif o == "index":
            try:
                want = m[op[1]]
            except IndexError:
                want = "IndexError"
            try:
                got = p[op[1]]
            except IndexError:
                got = "IndexError"
        elif o == "slice":
            s = slice(*op[1:])
            want, got = m[s], p[s]
            expect(isinstance(got, (list, tuple)), "a slice is no list", op)
            got = list(got)
        elif o == "iterate":
            want = (m, m, [t[0] for t in m], [t[1] for t in m], len(m))
            got = (list(p), list(p.entries()), list(p.keys()), list(p.values()), len(p))
            expect(list(reversed(p)) == m[::-1], "reversed()", m)
        elif o == "str":
            want, got = R.serialize_urlencoded(m), str(p)
        elif o == "add":
            want, got = R.serialize_urlencoded(m) + op[1], p + op[1]
        elif o == "copy":
            q = P.URLSearchParams(p)
            got, want = (list(q), q == p, q is p), (m, True, False)
            q.append("zz", "zz")
            p2 = p
            p, q = q, p2  # go on with the copy, then check the original stayed
            expect(list(q) == m, "changing a copy changed the original", case, list(q), m)
            m = m + [("zz", "zz")]
        elif o == "eq":
            q = P.URLSearchParams([list(t) for t in m])
            got = [p == q, p == list(m), p != q]
            q.append("", "")
            got += [p == q, q == p, p != q, p == P.URLSearchParams(m[::-1])]
            want = [True, False, False, False, False, True, m == m[::-1]]
        elif o == "reparse":
            q = P.URLSearchParams(str(p))
            got, want = list(q), m
            p = q
        ctx.label(o)
        expect(got == want, f"result of step {i} {op!r:.120} on {before!r:.200}", got, want)
        now = list(p)
        expect(now == m, f"list after step {i} {op!r:.120} on {before!r:.200}", now, m)
        expect(
            all(type(x) is tuple and type(x[0]) is str and type(x[1]) is str for x in now),
            "a stored pair is not a pair of strings",
            now,
        )
        expect(len(p) == len(m), "len()", len(p), len(m))
        changes += before != m
    if changes >= 2 and (hits or len({t[0] for t in m}) < len(m)):
        ctx.hit()
