"""C10: the form codec is lossless on every list of pairs."""

import gens as G

from .common import *

QUICK = 900000
THOROUGH = 2400000
RULE = (
    "cases are a list of name-value pairs with an encoding, or raw bytes in form "
    "syntax; urlencode must give the Standard's serialization in its fixed alphabet, "
    "parse_qsl must give the model's pairs and invert urlencode; non-trivial = at "
    "least one pair, with something escaped or repeated"
)
ALPHABET = frozenset(
    "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789*-._+%&="
)


def gen(src):
    if src.chance(1, 3):
        if src.chance(1, 2):
            n = G.length(src, 10, 40)
            b = bytes(
                src.choice(b"&&==++%%abAB012fF?;#/ ") if src.chance(5, 6) else src.draw(256)
                for _ in range(n)
            )
        else:
            b = R.usv(G.urlencoded(src)).encode("utf-8")
        return {"bytes": b}
    pairs = [[G.form_piece(src), G.form_piece(src)] for _ in range(G.length(src, 3, 8, 200))]
    if src.chance(1, 6):
        pairs = [["".join(G.char(src) for _ in range(src.size(4, 10))), G.text(src)] for _ in range(1 + src.draw(3))]
    enc = "utf-8" if src.chance(2, 3) else src.choice([e for e in G.ENCODINGS if not e.lower().startswith(("utf-16", "utf_16"))])
    return {"pairs": pairs, "enc": enc}


FIXED = [
    {"pairs": [["~", "a b"], ["", ""], ["=", "&+%"]], "enc": "utf-8"},
    {"pairs": [["\U0001f308", "~"]], "enc": "windows-1252"},
    {"bytes": b"a=b&&=&a&%61+%4d=&=x=y&%FE%FF&;"},
]


def check(case, ctx):
    if "bytes" in case:
        b = case["bytes"]
        want = R.parse_urlencoded(b)
        got = P.parse_qsl(b)
        if want and (b"%" in b or b"+" in b or len(want) > 1):
            ctx.hit()
        ctx.label("bytes")
        expect([tuple(t) for t in got] == want, "parse_qsl", b, got, want)
        # the list survives one more round trip
        s = P.urlencode(got)
        expect(P.parse_qsl(s.encode("ascii")) == got, "parse/serialize/parse", b, s)
        return
    pairs = [(n, v) for n, v in case["pairs"]]
    codec = R.codecs.lookup(case["enc"]).name
    want = R.serialize_urlencoded(pairs, codec)
    got = P.urlencode(pairs, case["enc"]) if case["enc"] != "utf-8" else P.urlencode(pairs)
    ctx.label("enc=" + codec)
    ctx.label("pairs=%d" % min(len(pairs), 5))
    if pairs and ("%" in want or "+" in want or len(pairs) > 1):
        ctx.hit()
    expect(got == want, "urlencode", case, got, want)
    expect(set(got) <= ALPHABET, "outside the alphabet", case, got)
    expect(P.urlencode(tuple(pairs), encoding=case["enc"]) == got, "tuple of pairs", case)
    if codec == "utf-8":
        back = P.parse_qsl(got.encode("ascii"))
        expect(back == [(R.usv(n), R.usv(v)) for n, v in pairs], "parse_qsl(urlencode(x)) is not x", case, got, back)
        ctx.label("round-trip")
