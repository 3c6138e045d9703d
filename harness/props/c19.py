"""C19: an assignment touches its own component and nothing else."""

import gens as G

from .common import *

QUICK = 120000
THOROUGH = 1500000
RULE = (
    "cases are a URL and a history of assignments; after each, every property outside "
    "the assigned one's footprint must read as before, a repeated assignment must "
    "change nothing more, and assigning a property its own value must change nothing; "
    "non-trivial = an assignment changed the URL"
)
ASSUMPTIONS = ["no reference model: before/after comparison only"]

FOOT = {
    "protocol": {"protocol", "port", "host", "origin", "href"},
    "username": {"username", "href"},
    "password": {"password", "href"},
    "host": {"host", "hostname", "port", "origin", "href"},
    "hostname": {"host", "hostname", "origin", "href"},
    "port": {"port", "host", "origin", "href"},
    "pathname": {"pathname", "href"},
    "search": {"search", "params", "href"},
    "hash": {"hash", "href"},
}


def gen(src):
    ops = []
    for _ in range(1 + G.length(src, 2, 6, 40)):
        a = src.choice(G.SETTERS[1:])
        ops.append([a, G.setter_value(src, a)])
    return {"url": G.good_url(src), "ops": ops}


FIXED = [{"url": "http://u:p@h:81/a;b?c=d#e", "ops": [[a, v]]} for a, v in [
    ("protocol", "https"), ("protocol", "foo"), ("username", "x"), ("password", ""), ("host", "y:9"), ("host", "y:x"),
    ("hostname", "z"), ("hostname", "z:9"), ("port", "443"), ("port", "9x"), ("pathname", "/?#"), ("search", "#"), ("hash", "##")]]


def parts(u):
    d = url_snapshot(u)
    r = P.parse_url(u.href)
    d["has-query"] = r.query is not None
    d["has-fragment"] = r.fragment is not None
    return d


G_DEFAULT = {"http:": "80", "https:": "443", "ws:": "80", "wss:": "443", "ftp:": "21"}


def gives_port(value, protocol):
    """does this host value have a ':' and a digit after its host?"""
    v = "".join(c for c in value if c not in "\t\n\r")
    inside = False
    for i, c in enumerate(v):
        if c == "[":
            inside = True
        elif c == "]":
            inside = False
        elif c in "/?#" or (c == "\\" and protocol in (*G_DEFAULT, "file:")):
            return False
        elif c == ":" and not inside:
            return v[i + 1 : i + 2] in tuple("0123456789")
    return False


def check(case, ctx):
    u = real_parse(case["url"])
    if u is None:
        return
    opaque = isinstance(u.path, str)
    u = P.URL(case["url"])
    for attr, value in case["ops"]:
        before = parts(u)
        try:
            setattr(u, attr, value)
            ok = True
        except URLParseError:
            ok = False
        after = parts(u)
        foot = set(FOOT[attr])
        if attr == "search":
            foot |= {"has-query"}
        if attr == "hash":
            foot |= {"has-fragment"}
        if before["port"] != after["port"]:
            if attr in ("host", "hostname") and not gives_port(value, u.protocol):
                foot.discard("port")
            if attr == "protocol":
                expect(after["port"] == "" and G_DEFAULT.get(u.protocol) == before["port"], "a scheme change altered a port that is not its default", before["href"], after["href"])
        changed = {k for k in after if after[k] != before[k]}
        ctx.label(attr + (":changed" if changed else ":same") + ("" if ok else ":rejected"))
        if changed:
            ctx.hit()
        extra = changed - foot
        if opaque and attr in ("search", "hash"):
            # the Standard strips trailing spaces of an opaque path that lost
            # its query and fragment
            if before["pathname"].rstrip(" ") == after["pathname"]:
                extra.discard("pathname")
        if u.protocol == "blob:" or before["protocol"] == "blob:":
            extra.discard("origin")
        expect(not extra, f"assigning {attr}={value!r:.80} changed {sorted(extra)}", before["href"], after["href"])
        expect(not (changed and "href" not in changed), f"{attr} changed but href did not", before["href"], sorted(changed))
        # again
        try:
            setattr(u, attr, value)
        except URLParseError:
            expect(not ok, f"assigning {attr} again is rejected", before["href"], value)
        again = parts(u)
        if attr != "protocol" or ok:
            expect(again == after, f"assigning {attr}={value!r:.80} twice differs from once", before["href"], after["href"], again["href"])
        # its own value
        if getattr(u, attr) == "" and attr != "pathname":
            continue  # '' does not tell an absent component from an empty one
        try:
            setattr(u, attr, getattr(u, attr))
        except URLParseError as e:
            if getattr(u, attr) == "" or u.href.startswith(("file:", "data:")):
                continue
            raise Violation(f"assigning {attr} its own value is rejected: {u.href!r}: {e}")
        own = parts(u)
        own_params, own["params"] = own["params"], after["params"]
        if u.protocol == "file:" and attr in ("host", "hostname", "pathname"):
            continue  # 'localhost' and drive letters are normalized for file URLs
        expect(own == after, f"assigning {attr} its own value changed the URL", after["href"], own["href"])
