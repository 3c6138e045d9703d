"""C22: resolving references obeys its algebraic laws."""

import gens as G

from .common import *

QUICK = 72000
THOROUGH = 900000
RULE = (
    "cases are a base and references; the laws checked without a reference model: an "
    "absolute serialization resolves to itself against any base, '' gives the base "
    "without fragment, '#f' and '?q' replace only their part, base query and fragment "
    "never matter for other references, 'x' = './x' = 'y/../x', resolution in one step "
    "= in two, surrounding whitespace, embedded tabs/newlines, scheme case and (for "
    "special URLs) backslashes never matter; non-trivial = base and reference accepted"
)
ASSUMPTIONS = ["no reference model: relations between runs of the code only"]

BASES2 = ["http://other/x/y?z#w", "https://u:p@h:1/", "file:///C:/d/", "foo://h/p", "foo:opaque", "data:x,y?q"]


def gen(src):
    b = G.good_url(src)
    if src.chance(1, 5):
        i = min([b.find(c) for c in "?#" if c in b] or [len(b)])
        b = b[:i] + src.choice(["/", "//", "///", "/a//", "//a", "/a//b", "/.//", "/%2e/", "/C:/"]) + b[i:]
    ref = G.relative_ref(src) if src.chance(2, 3) else G.url_string(src)
    rel = "/".join(G.word(src, 2, 6) or "x" for _ in range(1 + src.draw(3)))
    if src.chance(1, 4):
        rel = src.choice(["a", "a/b", "a//b", "%2e/a", "a/..", "é", "a b", "a;p", "a|b", "Z"]) + rel
    return {
        "base": b,
        "ref": ref,
        "rel": rel,
        "other": src.choice(BASES2),
        "tail": src.choice(["", "?x=y", "#z", "?x#z"]),
        "pos": [src.draw(64) for _ in range(4)],
        "frag": G.fragment(src),
        "query": G.query(src),
        "seg": src.choice(["y", "yy", "é", "%41", "a b", ":", "1"]),
    }


FIXED = [
    {"base": b, "ref": r, "rel": "x", "other": "file:///C:/d/", "tail": "?x#z", "pos": [0, 3, 9, 1], "frag": "f", "query": "q", "seg": "y"}
    for b in ["file:///C:/a/b?q#f", "http://h/a/b?q#f", "http://h/a//?q", "file:////", "foo:/a//b?q#f", "foo://h?q", "data:x y  ?q#f"]
    for r in ["", "?", "#", "/C|/x", "//h2", "..", "C|", "x:y"]
]


def href(u, b=None):
    r = real_parse(u, b)
    return None if r is None else r.href


def check(case, ctx):
    base = case["base"]
    b = real_parse(base)
    if b is None:
        ctx.label("base-rejected")
        return
    H = b.href
    nofrag = b.serialize_url(exclude_fragment=True)
    # identity of absolute URLs
    expect(href(H, case["other"]) == H and href(H, H) == H, "an absolute URL does not resolve to itself", H, case["other"], href(H, case["other"]))
    opaque = isinstance(b.path, str)
    ref = case["ref"]
    got = href(ref, base)
    expect(got == href(ref, H), "a base and its serialization give different results", base, ref, got, href(ref, H))
    ctx.label("resolved" if got is not None else "refused")
    if got is not None:
        ctx.hit()
        expect(href(got, case["other"]) == got, "a resolved URL does not resolve to itself", got)
    if not opaque:
        expect(href("", H) == nofrag, "'' is not the base without fragment", H, href("", H))
    # fragment
    f = real_parse("#" + case["frag"], H)
    if f is not None:
        expect(f.serialize_url(exclude_fragment=True) == nofrag, "'#f' changed more than the fragment", H, case["frag"], f.href)
        g = real_parse(nofrag + "#" + case["frag"])
        if case["frag"] == case["frag"].strip(R.C0_SPACE):
            expect(f.fragment is not None and g is not None and f.fragment == g.fragment, "the fragment depends on the base", H, case["frag"], f.fragment)
    else:
        raise Violation(f"'#...' refused against {H!r}")
    if not opaque:
        q = real_parse("?" + case["query"], H)
        expect(q is not None, "'?...' refused", H, case["query"])
        d = set(diff(rec_dict(q), rec_dict(b)))
        expect(d <= {"query", "fragment"}, "'?q' changed more than the query", H, case["query"], d)
    # the base's query and fragment are irrelevant to references with a path
    bare = H.split("#")[0].split("?")[0]
    if not opaque and ref.strip(R.C0_SPACE)[:1] not in ("", "#", "\t", "\n", "\r"):
        same_scheme = href(ref, bare)
        t = "".join(c for c in ref.strip(R.C0_SPACE) if c not in "\t\n\r")
        scheme_only = t.split("#")[0].rstrip(":").lower() == b.scheme
        if not scheme_only:
            expect(same_scheme == got, "the base's query or fragment matters", H, bare, ref, got, same_scheme)
    # whitespace, tabs, newlines
    p = case["pos"]
    j = list(ref)
    for i, c in zip(p[:3], "\t\n\r"):
        j.insert(i % (len(j) + 1), c)
    if not has_surrogate(ref):
        noisy = " \x00" + "".join(j) + "\x1f \n" if ref == ref.strip(R.C0_SPACE) and ref else "".join(j)
        if ref == ref.strip(R.C0_SPACE):
            expect(href(noisy, base) == got, "tabs, newlines or surrounding spaces matter", base, ref, noisy, got, href(noisy, base))
    # scheme case
    i = ref.find(":")
    if i > 0 and ref[:i].isascii() and ref[:i].isalnum() and ref[0].isalpha() and got is not None and real_parse(ref) is not None:
        expect(href(ref[:i].swapcase() + ref[i:], base) == got, "scheme case matters", base, ref)
    # paths
    rel, tail = case["rel"], case["tail"]
    if not opaque:
        d = href(rel + tail, H)
        drive = len(rel) >= 2 and rel[0] in R.ALPHA and rel[1] in ":|"
        expect(d is not None, "a relative path is refused", H, rel)
        if not drive:
            # (before a Windows drive letter a file URL stops shortening)
            forms = ["./" + rel, "%2E/" + rel]
            if not (b.scheme == "file" and case["seg"][0] in R.ALPHA and len(case["seg"]) == 2):
                forms += [case["seg"] + "/../" + rel, "./" + case["seg"] + "/%2e./" + rel] if ":" not in case["seg"] else ["./" + case["seg"] + "/../" + rel]
            for form in forms:
                expect(href(form + tail, H) == d, "an equivalent relative path resolves elsewhere", H, rel, form, d, href(form + tail, H))
        # a plain segment takes the place of what follows the last '/' of the base
        want = (bare[: bare.rfind("/") + 1] if b.path else bare + "/") + "zz"
        if not (b.scheme == "file" and len(b.path) == 1 and len(b.path[0]) == 2 and b.path[0][0] in R.ALPHA and b.path[0][1] == ":"):
            expect(href("zz" + tail, H) == want + tail, "a plain segment is not put in place of the last one of the base", H, href("zz" + tail, H), want + tail)
        # one step or two
        first = href(rel, H)
        second = href("zz" + tail, first)
        if "/" in rel:
            one = href(rel.rsplit("/", 1)[0] + "/zz" + tail, H)
        else:
            one = href("zz" + tail, H)
        expect(one == second, "resolving in two steps differs from one", H, rel, one, second)
        expect(href("." , first) == href("./", first), "'.' and './' differ", first)
        expect(href("..", first) == href("../", first) == href("./%2e%2E/", first), "'..' spellings differ", first)
        if b.is_special():
            expect(href((rel + tail).replace("/", "\\"), H) == d if "?" not in tail and "#" not in tail else href(rel.replace("/", "\\") + tail, H) == d, "backslashes matter in a special URL", H, rel)
        # an absolute path replaces the whole path (but not a file URL's drive)
        if b.scheme != "file":
            a = real_parse("/" + rel, H)
            expect(a is not None and not (set(diff(rec_dict(a), rec_dict(b))) - {"path", "query", "fragment"}), "an absolute path changed the authority", H, rel)
            expect(a.href == href("/" + rel, href("/", H)), "an absolute path depends on the base path", H, rel)
        if b.host is not None and b.scheme != "file":
            a = real_parse("//example.org/" + rel, H)
            expect(a is not None and a.scheme == b.scheme and a.host == "example.org" and not a.includes_credentials() and a.port is None, "'//host' keeps parts of the base", H, a and a.href)
