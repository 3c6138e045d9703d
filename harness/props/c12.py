"""C12: every entry point and view tells the same story about a URL."""

import gens as G

from .common import *

QUICK = 160000
THOROUGH = 900000
RULE = (
    "cases are (input, base) pairs plus one to three assignments; URL(), parse_url(), the basic "
    "parser and can_parse() are compared with each other for every way of passing the "
    "base (string, URL, URL record), every URL property with the record's components, "
    "before and after each assignment, and an assignment with the documented state-override call on a record; "
    "non-trivial = the URL was accepted"
)


def assignment(src):
    a = src.choice(["protocol", "host", "hostname", "port", "pathname", "search", "hash", "authority"])
    if a == "authority":
        v = G.userinfo(src) + G.host(src) + (":" + G.port(src) if src.chance(1, 3) else "")
    else:
        v = G.setter_value(src, a)
    return a, v


def gen(src):
    u, b = G.url_and_base(src)
    a, v = assignment(src)
    more = [list(assignment(src)) for _ in range(src.size(1, 2))]
    return {"url": u, "base": b, "attr": a, "value": v, "start": G.good_url(src), "more": more}


FIXED = [
    {"url": "http://example.org/foo/bar", "base": None, "attr": "authority", "value": "user:pass@example.net", "start": "http://example.org/foo/bar"},
    {"url": "", "base": "file:///C:/a?b#c", "attr": "port", "value": "80", "start": "http://h:81/"},
]

S = P.URLParserState


def views(r, u, case):
    """the URL object against the record"""
    host = r.serialize_host()
    want = {
        "href": r.href,
        "origin": "null" if r.origin is None else str(r.origin),
        "protocol": r.scheme + ":",
        "username": r.username,
        "password": r.password,
        "host": host if r.port is None else f"{host}:{r.port}",
        "hostname": host,
        "port": "" if r.port is None else str(r.port),
        "pathname": r.serialize_path(),
        "search": "?" + r.query if r.query else "",
        "hash": "#" + r.fragment if r.fragment else "",
    }
    got = {a: getattr(u, a) for a in ATTRS}
    d = diff(got, want)
    expect(not d, "URL properties and record components differ", case, d)
    expect(str(u) == u.href == str(r) == r.serialize_url(), "str()/href/serialize_url()", case)
    expect(u.href in repr(u) or repr(u.href) in repr(u), "repr() does not show the href", case, repr(u))
    for a in ATTRS:
        expect(f"{a}={got[a]!r}" in repr(u), "repr() does not show " + a, case, repr(u))
    for f in FIELDS:
        expect(repr(getattr(r, f)) in repr(r), "repr() of the record does not show " + f, case, repr(r))
    expect(host == ("" if r.host is None else P.Host.serialize(r.host)), "serialize_host()", case)
    expect(r.is_special() is not r.is_not_special(), "is_special()/is_not_special()", case)
    expect(r.is_special() is (r.scheme in R.SPECIAL), "is_special()", case)
    expect(r.has_opaque_path() is isinstance(r.path, str), "has_opaque_path()", case)
    expect(r.includes_credentials() is bool(r.username or r.password), "includes_credentials()", case)
    expect(
        r.cannot_have_username_password_port() is (r.host is None or r.host == "" or r.scheme == "file"),
        "cannot_have_username_password_port()",
        case,
    )
    # recomposition of the href out of the parts
    auth = ""
    if r.host is not None:
        auth = "//"
        if u.username or u.password:
            auth += u.username + (":" + u.password if u.password else "") + "@"
        auth += u.host
    elif u.pathname.startswith("//") and not r.has_opaque_path():
        auth = "/."
    expect(
        r.href
        == u.protocol
        + auth
        + u.pathname
        + ("" if r.query is None else "?" + r.query)
        + ("" if r.fragment is None else "#" + r.fragment),
        "the href is not made of its parts",
        case,
        r.href,
    )
    # the query parameters
    q = (r.query or "").encode("utf-8")
    pairs = P.parse_qsl(q)
    expect(list(u.search_params) == pairs, "search_params and parse_qsl(query)", case)
    expect(list(P.URLSearchParams(u.search)) == pairs, "URLSearchParams(search)", case)
    expect(list(P.URLSearchParams(r)) == pairs, "URLSearchParams(record)", case)
    p = P.URLSearchParams()
    p.attach(r)
    expect(list(p) == pairs, "attach(record)", case)


def by_href(old, url):
    u = P.URL(old)
    u.href = url
    return u


def check(case, ctx):
    url, base = case["url"], case["base"]
    r = real_parse(url, base)
    ctx.label("accepted" if r is not None else "rejected")

    def attempt(what, f):
        try:
            v = f()
        except URLParseError:
            v = None
        expect((v is None) == (r is None), what + ": another verdict", case, v, r)
        if r is not None:
            expect(str(v) == r.href, what + ": another URL", case, v, r.href)
        return v

    brec = real_parse(base) if base is not None else None
    u = attempt("URL(str, str)", lambda: P.URL(url, base))
    u2 = attempt("URL(base=)", lambda: P.URL(url, base=base))
    can = [P.URL.can_parse(url, base), P.URL.can_parse(url, base=base, validity=P.ValidityState())]
    attempt("parse_url(encoding=)", lambda: P.parse_url(url, base, "UTF-8"))
    attempt("parse_url(validity=)", lambda: P.parse_url(url, base, validity=P.ValidityState()))
    if base is None:
        # assigning href is parsing
        for old in ("foo:x", case["start"]):
            if real_parse(old) is not None:
                attempt("href = str", lambda: by_href(old, url))
        b2 = attempt("BasicURLParser.parse(str)", lambda: P.BasicURLParser.parse(url))
    elif brec is not None:
        b2 = attempt("BasicURLParser.parse(str, record)", lambda: P.BasicURLParser.parse(url, brec))
        attempt("parse_url(str, record)", lambda: P.parse_url(url, brec))
        attempt("URL(str, URL)", lambda: P.URL(url, P.URL(base)))
        attempt("URL(str, normalized base)", lambda: P.URL(url, brec.href))
        can.append(P.URL.can_parse(url, P.URL(base)))
    else:
        b2 = None
    expect(all(c is (r is not None) for c in can), "can_parse() disagrees", case, can)
    if r is not None:
        ctx.hit()
        expect(rec_tuple(b2) == rec_tuple(r), "BasicURLParser and parse_url records differ", case, rec_tuple(b2), rec_tuple(r))
        expect(r == b2 and u == u2, "== between equal URLs", case)
        views(r, u, case)
        # a record given as target is filled in and returned
        t = P.URLRecord()
        out = None
        if url == url.strip(R.C0_SPACE):
            out = P.BasicURLParser.parse(url, brec, url=t)
            expect(out is t and rec_tuple(t) == rec_tuple(r), "url= target", case, rec_tuple(t), rec_tuple(r))

    # assignments and the documented overrides on the record
    start = real_parse(case["start"])
    if start is None:
        return
    rec = real_parse(case["start"])
    uu = P.URL(case["start"])
    views(rec, uu, {"start": case["start"]})
    done = []
    for a, v in [(case["attr"], case["value"])] + case.get("more", []):
        ctx.label("override " + a)
        done.append([a, v])
        if a == "authority":
            authority_override(rec.href, v)
        elif not assign(rec, uu, a, v, case["start"], done):
            return


def authority_override(start, v):
    rec = P.parse_url(start)
    if rec.includes_credentials() or rec.host is None or rec.scheme == "file":
        return
    m = R.parse(start)
    failed = raised = False
    try:
        R.parse(v, url=m, override="authority")
    except R.Fail:
        failed = True
    try:
        P.BasicURLParser.parse(v, url=rec, state_override=S.AUTHORITY_STATE)
    except URLParseError:
        raised = True
    expect(raised == failed, "authority override: another verdict", start, v, failed)
    expect(rec_tuple(rec) == m.tup(), "authority override: another URL", start, v, rec_tuple(rec), m.tup())


def assign(rec, uu, a, v, start, done):
    raised = [False, False]
    try:
        if a == "protocol":
            P.BasicURLParser.parse(v + ":", url=rec, state_override=S.SCHEME_START_STATE)
        elif a == "host":
            if not rec.has_opaque_path():
                P.BasicURLParser.parse(v, url=rec, state_override=S.HOST_STATE)
        elif a == "hostname":
            if not rec.has_opaque_path():
                P.BasicURLParser.parse(v, url=rec, state_override=S.HOSTNAME_STATE)
        elif a == "port":
            if not rec.cannot_have_username_password_port():
                if v == "":
                    rec.port = None
                else:
                    P.BasicURLParser.parse(v, url=rec, state_override=S.PORT_STATE)
        elif a == "pathname":
            if not rec.has_opaque_path():
                rec.path = []
                P.BasicURLParser.parse(v, url=rec, state_override=S.PATH_START_STATE)
        elif a == "search":
            if v == "":
                return False
            rec.query = ""
            P.BasicURLParser.parse(v[1:] if v[0] == "?" else v, url=rec, state_override=S.QUERY_STATE)
        elif a == "hash":
            if v == "":
                return False
            rec.fragment = ""
            P.BasicURLParser.parse(v[1:] if v[0] == "#" else v, url=rec, state_override=S.FRAGMENT_STATE)
    except URLParseError:
        raised[0] = True
    try:
        setattr(uu, a, v)
    except URLParseError:
        raised[1] = True
    expect(raised[0] == raised[1], "assignment and override: another verdict", start, done, raised)
    views(rec, uu, {"start": start, "assigned": done})
    return True
