"""C02: any history of property assignments acts as the Standard's setters do."""

import gens as G

from .common import *

QUICK = 195000
THOROUGH = 1200000
RULE = (
    "cases are a starting URL and a history of assignments to href, protocol, "
    "username, password, host, hostname, port, pathname, search and hash; after "
    "every assignment all properties and the query parameters are compared with the "
    "model, and URLParseError must be raised exactly when the Standard's algorithm "
    "returns failure; non-trivial = at least one assignment changed the URL and at "
    "least two were made, or one was rejected"
)
ASSUMPTIONS = ["the reference model harness/refurl.py (see C01)"]


def one_op(src):
    a = src.choice(G.SETTERS)
    return [a, G.setter_value(src, a)]


def gen(src):
    if src.chance(1, 12):
        u, ops, r = G.drive_case(src)
        return {"url": u, "ops": ops, "ref": r}
    if src.chance(1, 4):
        # everything from tiny alphabets, so that rare combinations meet
        case = {"url": G.small_good(src), "ops": G.small_history(src, 1 + src.size(2, 5))}
        if src.chance(1, 2):
            case["ref"] = G.small_ref(src)
        return case
    url = G.good_url(src)
    n = 1 + G.length(src, 4, 10, 60)
    if src.chance(1, 6):
        a = src.choice(G.SETTERS)  # dwell on one attribute
        ops = [[a, G.setter_value(src, a)] for _ in range(n)]
    else:
        ops = [one_op(src) for _ in range(n)]
    case = {"url": url, "ops": ops}
    if src.chance(1, 4):
        case["ref"] = G.relative_ref(src)
    return case


FIXED = [
    {"url": "http://h:0/", "ops": [["protocol", "file"]]},
    {"url": "foo://h:0/", "ops": [["hostname", ""], ["host", ""]]},
    {"url": "http://h/", "ops": [["port", "0" * 5000 + "8080"], ["port", "9" * 5000]]},
    {"url": "file://h/C|/x", "ops": [["pathname", "C|/y"], ["host", "localhost"]]},
    {"url": "data:x  ?q#f", "ops": [["search", ""], ["hash", ""]]},
    {"url": "http://h/", "ops": [["host", "x:99999"]]},
]


def check(case, ctx):
    try:
        m = R.ModelURL(case["url"])
    except R.Fail:
        ctx.label("start-rejected")
        return
    u = P.URL(case["url"])
    changed = rejected = 0
    before = m.snapshot()
    d = diff(url_snapshot(u), before)
    expect(not d, "initial properties", case["url"], d)
    for i, (attr, value) in enumerate(case["ops"]):
        m.set(attr, value)
        raised = False
        try:
            setattr(u, attr, value)
        except URLParseError:
            raised = True
        want = m.snapshot()
        ctx.label(
            attr
            + (":rejected" if m.rejected else ":changed" if want != before else ":same")
        )
        changed += want != before
        rejected += m.rejected
        d = diff(url_snapshot(u), want)
        expect(
            not d,
            f"after assignment {i} ({attr}={value!r:.80}) to {before['href']!r:.120}",
            d,
        )
        expect(
            raised == m.rejected,
            f"assignment {i} ({attr}={value!r:.80}) to {before['href']!r:.120}: "
            f"raised={raised}, the Standard's algorithm fails={m.rejected}",
        )
        before = want
    if (changed and len(case["ops"]) > 1) or rejected:
        ctx.hit()
    if "ref" in case:
        try:
            want = R.ModelURL(case["ref"], m).snapshot()
        except R.Fail:
            want = None
        try:
            got = url_snapshot(P.URL(case["ref"], u))
        except URLParseError:
            got = None
        expect(
            (got is None) == (want is None) and (got is None or not diff(got, want)),
            f"{case['ref']!r:.80} resolved against the result {before['href']!r:.120}",
            got and got["href"],
            want and want["href"],
        )
