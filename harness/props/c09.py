"""C09: the percent codec is lossless and encodes exactly what it must."""

import gens as G

from .common import *

QUICK = 1350000
THOROUGH = 3000000
RULE = (
    "cases are a string, an ASCII set of safe characters, an encoding and the "
    "space-as-plus flag, and a byte string; encoded output is compared byte by byte "
    "with the model, decoded again and compared with the input; non-trivial = at "
    "least one character was encoded or one escape decoded"
)
ASSUMPTIONS = ["Python's codecs are the encoders of the legacy encodings"]

ALWAYS = frozenset(b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_.-~")
SAFE_SETS = [
    "",
    "/",
    "!$&'()*+,-./:;=?@_~",
    "%",
    "+",
    " ",
    "".join(chr(i) for i in range(0x21, 0x7F)),
    "".join(chr(i) for i in range(0x20, 0x7F)),
    "*-._",
    "&#;",
    "\\~",
    "$BI(",
]
ENCS = [e for e in G.ENCODINGS if not e.lower().startswith(("utf-16", "utf_16"))]


def gen(src):
    if src.chance(1, 4):
        n = G.length(src, 6, 30)
        b = bytes(
            src.choice(b"%%%%0123456789abcdefABCDEFgGxX+ ") if src.chance(4, 5) else src.draw(256)
            for _ in range(n)
        )
        return {"bytes": b}
    safe = src.choice(SAFE_SETS) if src.chance(2, 3) else "".join(
        sorted({src.choice(G.ASCII) for _ in range(src.size(5, 20))})
    )
    enc = "utf-8" if src.chance(1, 3) else src.choice(ENCS)
    k = src.draw(4)
    if k == 0:
        s = G.text(src, 5, 30)
    elif k == 1:
        s = "".join(src.choice(G.LEGACY + ["a", " ", "&", "+", "\U0001f308"]) for _ in range(G.length(src, 5, 20)))
    else:
        s = "".join(G.char(src) for _ in range(G.length(src, 5, 20)))
    if src.chance(1, 300):
        n = src.choice([G.dict_int(src) // 2, 64, 500, 2100, 4100, 9000])
        s += src.choice(["", "a"]) + src.choice(["\ud83c\udf08", "\ud83c\udf08", "\u00e9a", "\u3042"]) * min(n, 40000)
    return {"s": s, "safe": safe, "enc": enc, "plus": src.chance(1, 2)}


FIXED = [
    {"s": "\u3042\U0001f308\u3042a", "safe": "", "enc": "iso-2022-jp", "plus": False},
    {"s": "\U0001f308 &", "safe": "", "enc": "windows-1252", "plus": True},
    {"s": "\udf08\ud83c", "safe": "", "enc": "utf-8", "plus": False},
    {"s": "~", "safe": "", "enc": "utf-8", "plus": False},
    {"bytes": b"%"},
    {"bytes": b"%4"},
    {"bytes": b"%%41%4g%g4%41"},
]


def check(case, ctx):
    if "bytes" in case:
        b = case["bytes"]
        want = R.utf8_decode_lossy(b)
        expect(P.utf8_decode(b) == want, "utf8_decode", b, P.utf8_decode(b), want)
        s = want
        d = R.pct_decode(s.encode("utf-8"))
        got = P.string_percent_decode(s)
        expect(type(got) is bytes and got == d, "string_percent_decode", s, got, d)
        if d != s.encode("utf-8"):
            ctx.hit()
            ctx.label("decoded-escape")
        return
    s, safe, enc, plus = case["s"], case["safe"], case["enc"], case["plus"]
    u = R.usv(s)
    codec = R.codecs.lookup(enc).name
    ctx.label("enc=" + codec)
    encset = frozenset(range(256)) - ALWAYS - frozenset(safe.encode("ascii"))
    want = R.pct_encode_after_encoding(u, encset, codec, plus)
    got = P.string_percent_encode(s, safe, enc, plus)
    if want != s:
        ctx.hit()
    if plus:
        ctx.label("space-as-plus")
    if "%26%23" in want:
        ctx.label("character-reference")
    expect(got == want, "string_percent_encode", case, got, want)
    expect(P.string_percent_encode(s, safe, encoding=enc, space_as_plus=plus) == got, "keyword arguments", case)
    expect(P.utf8_encode(s) == u.encode("utf-8"), "utf8_encode", s, P.utf8_encode(s))
    expect(P.utf8_decode(P.utf8_encode(s)) == u, "utf8 round trip", s)
    w8 = R.pct_encode_after_encoding(u, encset, "utf-8", plus)
    g8 = P.utf8_percent_encode(s, safe, plus)
    expect(g8 == w8, "utf8_percent_encode", case, g8, w8)
    d = P.string_percent_decode(s)
    expect(d == R.pct_decode(u.encode("utf-8")), "string_percent_decode", s, d)
    # inverse, when '%' itself is encoded
    if "%" not in safe:
        expect(g8.isascii(), "not ASCII", case, g8)
        back = P.string_percent_decode(g8.replace("+", " ") if plus and "+" not in safe else g8)
        if not plus or "+" not in safe:
            expect(back == u.encode("utf-8"), "decoding what was encoded", case, g8, back)
            ctx.label("round-trip")
