"""C11: hostile input fails cleanly: a verdict or URLParseError, nothing else."""

import gens as G

from .common import *

QUICK = 48000
THOROUGH = 1200000
RULE = (
    "cases are hostile strings (surrogates, controls, very long runs, malformed "
    "escapes and hosts, deep nesting) fed to every public entry point that takes "
    "text; each must return a value of the documented type or raise URLParseError; "
    "validators always return a bool; a rejected href assignment leaves the URL as it "
    "was; non-trivial = at least one entry point rejected the text"
)


def gen(src):
    k = src.draw(12)
    if k < 3:
        s = G.url_string(src)
    elif k < 5:
        s = G.soup(src)
    elif k < 7:
        s = G.host(src)
    elif k == 7:
        s = src.choice(["http://", "foo://", "file://", "foo:", "blob:", ""]) + G.host(src) + ":" + G.port(src)
    elif k == 8:
        unit = src.choice(["a", "@", "/", "..", "/..", "%2e/", "[", "::", "0", "1.", "?", "#", "%", "\ud800", "é",
                           "blob:", "\t", " ", " ", "\\", ":", "&", "=", "&a=", "x" * 63 + ".", "\u0301", "\u200d"])
        n = src.choice([100, 500, 1100, 1100, 1100, 4301]) if src.chance(1, 3) else src.between(1, 60)
        s = src.choice(["", "http://", "http://h/", "foo:", "foo:x", "file:", "blob:", "http://h/?", "http://h#", "http://["]) + unit * n + src.choice(["", "]", "/", "1", "x", "#f", "?q"])
    elif k == 9:
        s = "".join(G.char(src) for _ in range(G.length(src, 8, 40)))
    elif k == 10:
        s = G.blob_url(src)
    else:
        s = G.junk(src, src.choice(G.SEEDS["urls"])[0])
    b = None if src.chance(1, 2) else G.base(src)
    attr = src.choice(G.SETTERS)
    return {"s": s, "base": b, "attr": attr, "start": G.good_url(src)}


FIXED = [
    {"s": s, "base": None, "attr": a, "start": "http://u:p@h:81/x?y#z"}
    for s in ["http://\ud800/", "\ud800", "http://h:" + "1" * 5000, "http://0x" + "f" * 5000, "http://[::1." + "1" * 5000 + "]",
              "1" * 5000, "http://" + "1" * 5000, "http://" + "0" * 5000 + "9", "blob:" * 1200 + "x", "%", "http://%", "http://a%ff"]
    for a in ("href", "host", "port")
]


def check(case, ctx):
    s, b, attr = case["s"], case["base"], case["attr"]
    rejected = 0

    def call(what, f, *types):
        nonlocal rejected
        try:
            v = f()
        except URLParseError as e:
            expect(isinstance(str(e), str), "unprintable error")
            rejected += 1
            return None
        except RecursionError as e:
            raise Violation(f"{what}: RecursionError for {s!r:.200}") from e
        except Exception as e:
            raise Violation(f"{what}: {type(e).__name__}: {str(e)[:200]} for {s!r:.200} (base {b!r:.80})") from e
        expect(isinstance(v, types), what + ": unexpected type", s, type(v).__name__)
        return v

    u = call("URL()", lambda: P.URL(s, b), P.URL)
    r = call("parse_url()", lambda: P.parse_url(s, b), P.URLRecord)
    expect((u is None) == (r is None), "URL() and parse_url() disagree on the verdict", s, b)
    call("urlparse()", lambda: P.urlparse(s, b), tuple)
    call("urlparse(allow_fragments=False)", lambda: P.urlparse(s, b, "windows-1252", False), tuple)
    call("Host.parse()", lambda: P.Host.parse(s), (str, int, tuple))
    call("Host.parse(opaque)", lambda: P.Host.parse(s, True), (str, int, tuple))
    call("IDNA.domain_to_ascii()", lambda: P.IDNA.domain_to_ascii(s), str)
    call("IDNA.domain_to_ascii(strict)", lambda: P.IDNA.domain_to_ascii(s, True), str)
    call("IDNA.domain_to_unicode()", lambda: P.IDNA.domain_to_unicode(s), str)
    call("IDNA.domain_to_unicode(strict)", lambda: P.IDNA.domain_to_unicode(s, True), str)
    call("URL() with a hostile base", lambda: P.URL(case["start"], s), P.URL)

    def total(what, f, *types):
        nonlocal rejected
        before = rejected
        v = call(what, f, *types)
        expect(rejected == before, what + " raised", s)
        return v

    v = P.ValidityState()
    ok = total("URL.can_parse()", lambda: P.URL.can_parse(s, b), bool)
    ok2 = total("URL.can_parse(validity)", lambda: P.URL.can_parse(s, b, validity=v), bool)
    expect(ok is ok2 is (u is not None), "can_parse() disagrees with URL()", s, b, ok, ok2)
    valid = total("URLValidator.is_valid()", lambda: P.URLValidator.is_valid(s, b, validity=v), bool)
    expect(not valid or u is not None, "a URL is called valid but does not parse", s, b)
    total("is_valid_url_scheme()", lambda: P.URLValidator.is_valid_url_scheme(s), bool)
    for name in ("is_valid", "is_valid_domain", "is_valid_ipv4_address", "is_valid_ipv6_address", "is_valid_opaque_host"):
        f = getattr(P.HostValidator, name)
        a = total("HostValidator." + name, lambda: f(s), bool)
        c = total("HostValidator." + name + "(validity)", lambda: f(s, validity=v), bool)
        expect(a is c, "a validity argument changes the verdict of " + name, s)
    for e in ("utf-8", "windows-1252", "iso-2022-jp"):
        total("string_percent_encode", lambda: P.string_percent_encode(s, "/", e), str)
    total("string_percent_decode", lambda: P.string_percent_decode(s), bytes)
    q = total("URLSearchParams()", lambda: P.URLSearchParams(s), P.URLSearchParams)
    total("str(URLSearchParams)", lambda: str(q), str)
    total("URLSearchParams.append()", lambda: q.append(s, s), type(None))
    expect(total("URLSearchParams.has()", lambda: q.has(s, s), bool), "an appended pair is not found", s)
    total("URLSearchParams.get()", lambda: q.get(s), str)
    total("URLSearchParams.get_all()", lambda: q.get_all(s), tuple)
    total("in URLSearchParams", lambda: s in q, bool)
    total("URLSearchParams.set()", lambda: q.set(s, s), type(None))
    total("URLSearchParams.sort()", lambda: q.sort(), type(None))
    total("str(URLSearchParams)", lambda: str(q) + repr(q), str)
    total("URLSearchParams.delete()", lambda: q.delete(s, s), type(None))
    expect(not total("URLSearchParams.has()", lambda: q.has(s), bool), "a deleted name is still found", s)
    total("urlencode()", lambda: P.urlencode([(s, s)]), str)
    total("utf8_percent_encode()", lambda: P.utf8_percent_encode(s, ""), str)
    total("utf8_decode(utf8_encode())", lambda: P.utf8_decode(P.utf8_encode(s)), str)
    total("parse_qsl()", lambda: P.parse_qsl(P.utf8_encode(s)), list)
    total("==", lambda: u == s, bool)
    for x in (u,):
        if x is not None:
            for a in ATTRS:
                total("URL." + a, lambda: getattr(x, a), str)
            total("repr", lambda: repr(x) + str(x), str)
            total("origin", lambda: r.origin, (P.Origin, type(None)))
    if u is not None:
        # taking it apart again
        for a in (attr, "hash", "search", "username", "password", "port", "pathname"):
            call(f"emptying {a}", lambda: setattr(u, a, ""), type(None))
        total("append() to the URL", lambda: u.search_params.append("k", s), type(None))
        total("delete() from the URL", lambda: u.search_params.delete("k"), type(None))
        total("href", lambda: u.href, str)
    t = P.URL(case["start"]) if model_parse(case["start"]) is not None else None
    if t is not None:
        before = url_snapshot(t)
        n = rejected
        call("assigning " + attr, lambda: setattr(t, attr, s), type(None))
        if rejected > n and attr == "href":
            expect(url_snapshot(t) == before, "a rejected href assignment changed the URL", s, before["href"])
            # ... and goes on as if nothing had been assigned
            twin = P.URL(case["start"])
            for step in (
                lambda x: x.search_params.append("k", "v"),
                lambda x: setattr(x, "hash", "f"),
                lambda x: x.search_params.delete("k"),
                lambda x: setattr(x, "search", "?a=b"),
            ):
                step(t)
                step(twin)
                expect(url_snapshot(t) == url_snapshot(twin), "a URL works differently after a rejected href", s, case["start"], t.href, twin.href)
        for a in ATTRS:
            total(f"URL.{a} after assigning {attr}", lambda: getattr(t, a), str)
    ctx.label("accepted" if u is not None else "rejected")
    if rejected:
        ctx.hit()
