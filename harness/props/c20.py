"""C20: an encoding override reaches the query of special URLs and nothing else."""

import gens as G

from .common import *

QUICK = 280000
THOROUGH = 1500000
RULE = (
    "cases are (input, base, encoding label in any case); compared with the UTF-8 "
    "parse everything but the query must be equal, the query too for non-special, ws "
    "and wss URLs and for ASCII queries; otherwise it is compared with the model and, "
    "where the text is encodable, decoded back to it; a quarter also replace a query by the "
    "documented state override with the encoding; non-trivial = the query differs "
    "from the UTF-8 one"
)
ASSUMPTIONS = ["Python's codecs are the encoders of the legacy encodings"]


_pools = {}


def pool(codec):
    """some characters the encoding has"""
    if codec not in _pools:
        cps = list(range(0xA0, 0x180)) + list(range(0x391, 0x3CA)) + list(range(0x401, 0x452)) + list(range(0xE01, 0xE10))
        cps += list(range(0x2010, 0x2030)) + list(range(0x3041, 0x3100, 5)) + list(range(0x4E00, 0x4E60)) + list(range(0xAC00, 0xAC20)) + [0x8868, 0x80FD, 0xFF71, 0x20AC, 0x1F308]
        out = []
        for c in map(chr, cps):
            try:
                c.encode(codec)
            except UnicodeEncodeError:
                continue
            out.append(c)
        _pools[codec] = out or ["a"]
    return _pools[codec]


def gen(src):
    k = src.draw(4)
    if k == 3:
        # text the encoding has, so that it decodes back
        e = src.choice(G.ENCODINGS)
        chars = pool(R.output_encoding(e))
        q = "".join(src.choice(chars) if src.chance(1, 2) else src.choice(["a", "=", "&", "'", " ", "+", "\\", "x"]) for _ in range(1 + G.length(src, 4, 16)))
        u = src.choice(["http", "https", "ftp", "file", "HTTP", "ws", "foo"]) + "://h/" + src.choice(["", "é"]) + "?" + q + src.choice(["", "#", "#\xff"])
        return {"url": u, "base": None, "enc": e.upper() if src.chance(1, 4) else e, "over": None}
    if k == 0:
        u, b = G.url_and_base(src)
    else:
        q = "".join(
            src.choice(G.LEGACY + ["a", " ", "'", "&", "=", "%41", "%", "\U0001f308", "\ud83c", "#", "é", '"', "<", "\xff", "~", "\\"])
            for _ in range(G.length(src, 5, 20, 80))
        )
        u = src.choice(["http://h/", "https://h/p", "ftp://h/", "file:///x", ""] if src.chance(3, 4) else ["ws://h/", "wss://h/", "foo://h/", "data:x"]) + src.choice(
            ["", "é", "\u3042", "\u8868"]
        ) + "?" + q
        if src.chance(1, 3):
            u += "#" + src.choice(G.LEGACY)
        b = None
        if src.chance(1, 3) or u.startswith(("?", "é", "\u3042", "\u8868")):
            b = G.good_url(src) + ("" if src.chance(1, 2) else src.choice(G.LEGACY))
    e = src.choice(G.ENCODINGS)
    if src.chance(1, 4):
        e = e.upper() if src.chance(1, 2) else e.title()
    over = None
    if src.chance(1, 4):
        over = [
            src.choice(["http://h/", "ftp://h/?x", "file:///x#f", "https://h/?#", "ws://h/", "foo:/x", "foo:x"]),
            "".join(src.choice(G.LEGACY + ["a", " ", "'", "%", "\U0001f308", "\ud83c", "\t", '"', "<", "\x00"]) for _ in range(G.length(src, 4, 12))),
        ]
    return {"url": u, "base": b, "enc": e, "over": over}


FIXED = [
    {"url": "http://h/?\u3042\U0001f308\u3042", "base": None, "enc": "iso-2022-jp"},
    {"url": "ws://h/?\xff", "base": None, "enc": "windows-1252"},
    {"url": "file:///?\xff", "base": None, "enc": "windows-1252"},
    {"url": "?\xff#\xff", "base": "http://h/\xff?\xff", "enc": "koi8-r"},
    {"url": "", "base": "http://h/\xff?\xff", "enc": "windows-1252"},
    {"url": "http://h/?\xff", "base": None, "enc": "utf-16le"},
]


def check_override(case, ctx):
    """the documented way to replace a query, with an encoding"""
    start, text = case["over"]
    e = case["enc"]
    r = P.parse_url(start)
    before = rec_dict(r)
    r.query = ""
    P.BasicURLParser.parse(text, url=r, encoding=e, state_override=P.URLParserState.QUERY_STATE)
    # nothing is stripped, '#' is not a delimiter
    want = model_parse(start.split("#")[0].split("?")[0] + "?" + text + "#", None, e).query
    expect(r.query == want, "query replaced with an encoding", case["over"], e, r.query, want)
    expect(set(diff(rec_dict(r), before)) <= {"query"}, "replacing the query changed more", case["over"], e)


def check(case, ctx):
    u, b, e = case["url"], case["base"], case["enc"]
    if case.get("over"):
        check_override(case, ctx)
    m = model_parse(u, b, e)
    plain = real_parse(u, b)
    r = real_parse(u, b, e)
    expect((r is None) == (plain is None) == (m is None), "the encoding changes the verdict", case)
    if r is None:
        ctx.label("rejected")
        return
    d = diff(rec_dict(r), rec_dict(plain))
    expect(set(d) <= {"query"}, "the encoding changes more than the query", case, d)
    expect(r.query == m.query, "query", case, r.query, m.query)
    codec = R.output_encoding(e)
    ctx.label("enc=" + codec)
    if d:
        ctx.hit()
        ctx.label("query-differs")
        expect(r.scheme in ("http", "https", "ftp", "file"), "the encoding changes the query of a URL it must not", case, d)
        expect(codec != "utf-8", "a UTF-8/UTF-16 label changes the query", case, d)
    expect(r.query is None or (r.query.isascii() and r.query.isprintable()), "query is not ASCII", case, r.query)
    # what the server will decode
    if d and b is None:
        t = u.strip(R.C0_SPACE)
        for c in "\t\n\r":
            t = t.replace(c, "")
        t = R.usv(t)
        raw = t.split("#", 1)[0].split("?", 1)[1] if "?" in t.split("#", 1)[0] else None
        if raw is not None and "%" not in raw:
            try:
                sent = raw.encode(codec)
            except UnicodeEncodeError:
                ctx.label("character-reference")
                return
            if b"%" in sent:
                # ISO-2022-JP has the byte of '%' in its two-byte characters,
                # and the Standard does not escape it: ambiguous by design
                return
            got = R.pct_decode(r.query.encode("ascii"))
            expect(got == sent, "the query does not decode to the input", case, r.query)
            ctx.label("decoded")
    f = P.urlparse(u, b, e)
    expect(f.query == (r.query or ""), "urlparse(encoding)", case, f.query, r.query)
    if not has_surrogate(u, b):
        v = P.ValidityState()
        P.URLValidator.is_valid(u, b, e, validity=v)
        w = P.ValidityState()
        P.URLValidator.is_valid(u, b, validity=w)
        expect(v.error_types == w.error_types, "the encoding changes the validation errors", case, v.error_types, w.error_types)
