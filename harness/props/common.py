"""Helpers shared by the checks.  Only documented API of the code under test."""

import refurl as R
from engine import HarnessError, Violation
from urlstd import parse as P
from urlstd.error import (
    HostParseError,
    IDNAError,
    IPv4AddressParseError,
    IPv6AddressParseError,
    URLParseError,
)

__all__ = [
    "R",
    "P",
    "Violation",
    "HarnessError",
    "HostParseError",
    "IDNAError",
    "IPv4AddressParseError",
    "IPv6AddressParseError",
    "URLParseError",
    "FIELDS",
    "ATTRS",
    "rec_tuple",
    "rec_dict",
    "url_snapshot",
    "model_parse",
    "real_parse",
    "expect",
    "has_surrogate",
    "diff",
    "record_classes",
]

FIELDS = (
    "scheme",
    "username",
    "password",
    "host",
    "port",
    "path",
    "query",
    "fragment",
)
ATTRS = (
    "href",
    "origin",
    "protocol",
    "username",
    "password",
    "host",
    "hostname",
    "port",
    "pathname",
    "search",
    "hash",
)


def norm(v):
    return tuple(v) if isinstance(v, list) else v


def rec_tuple(r):
    return tuple(norm(getattr(r, f)) for f in FIELDS)


def rec_dict(r):
    return {f: norm(getattr(r, f)) for f in FIELDS}


def url_snapshot(u):
    d = {a: getattr(u, a) for a in ATTRS}
    d["params"] = list(u.search_params)
    return d


def model_parse(url, base=None, encoding="utf-8", errs=None):
    """-> Rec or None"""
    try:
        b = R.parse(base, encoding=encoding, errs=errs) if base is not None else None
        return R.parse(url, b, encoding, errs=errs)
    except R.Fail:
        return None


def real_parse(url, base=None, encoding="utf-8"):
    """-> URLRecord or None; any other exception is the caller's problem"""
    try:
        return P.parse_url(url, base, encoding)
    except URLParseError:
        return None


def short(x, n=400):
    s = repr(x)
    return s if len(s) <= n else s[:n] + "..."


def expect(cond, msg, *args):
    if not cond:
        raise Violation(msg + "".join(" | " + short(a) for a in args))


def diff(got, want):
    """the keys on which two dicts disagree"""
    return {
        k: {"got": got.get(k), "want": want.get(k)}
        for k in want
        if got.get(k) != want.get(k) or type(got.get(k)) is not type(want.get(k))
    }


def has_surrogate(*ss):
    return any(s is not None and any("\ud800" <= c <= "\udfff" for c in s) for s in ss)


def record_classes(m, ctx):
    """labels describing a parsed model record"""
    if m is None:
        ctx.label("rejected")
        return
    ctx.label("accepted")
    ctx.label(
        "scheme=" + (m.scheme if m.special else "non-special")
    )
    if m.opaque:
        ctx.label("opaque-path")
    h = m.host
    if h is None:
        ctx.label("host=null")
    elif h == "":
        ctx.label("host=empty")
    elif isinstance(h, int):
        ctx.label("host=ipv4")
    elif isinstance(h, tuple):
        ctx.label("host=ipv6")
    else:
        ctx.label("host=domain" if m.special else "host=opaque")
    if m.creds():
        ctx.label("credentials")
    if m.port is not None:
        ctx.label("port")
    if m.query is not None:
        ctx.label("query")
    if m.fragment is not None:
        ctx.label("fragment")
