"""Reference model of the WHATWG URL Standard (snapshot fff33c3, July 2023).

An independent, deliberately naive transliteration of the Standard's prose: one
pointer-driven state machine over a list of code points, one function per
algorithm.  It shares no code with /repo/src/urlstd.  The only trusted external
piece is ICU's UTS #46 processing (reached through icupy directly), because the
Standard itself delegates domain-to-ASCII to Unicode.

Everything that the Standard calls a "validation error" is appended (by type
name) to a list, so the model also predicts which inputs are *valid*.
"""

import codecs

import icupy.icu as icu


class Fail(Exception):
    """The Standard's 'return failure'.  kind: url/host/idna/ipv4/ipv6."""

    def __init__(self, kind, why=""):
        super().__init__(kind, why)
        self.kind = kind
        self.why = why


class At(str):
    """an error type with the position it was found at"""

    def __new__(cls, s, pos):
        self = super().__new__(cls, s)
        self.pos = pos
        return self


# ---------------------------------------------------------------- strings


def usv(s):
    """Convert to a scalar value string (pairs joined, lone surrogates -> FFFD)."""
    out = []
    i = 0
    n = len(s)
    while i < n:
        o = ord(s[i])
        if 0xD800 <= o <= 0xDBFF:
            if i + 1 < n and 0xDC00 <= ord(s[i + 1]) <= 0xDFFF:
                out.append(
                    chr(
                        0x10000 + ((o - 0xD800) << 10) + (ord(s[i + 1]) - 0xDC00)
                    )
                )
                i += 2
                continue
            out.append("\ufffd")
        elif 0xDC00 <= o <= 0xDFFF:
            out.append("\ufffd")
        else:
            out.append(s[i])
        i += 1
    return "".join(out)


DIGITS = "0123456789"
HEX = "0123456789abcdefABCDEF"
OCT = "01234567"
ALPHA = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"
ALNUM = ALPHA + DIGITS


def _lower_ascii(s):
    return "".join(chr(ord(c) + 32) if "A" <= c <= "Z" else c for c in s)


def is_noncharacter(o):
    return 0xFDD0 <= o <= 0xFDEF or (o & 0xFFFE) == 0xFFFE


def is_url_code_point(c):
    o = ord(c)
    if o < 0x80:
        return c in ALNUM or c in "!$&'()*+,-./:;=?@_~"
    if o < 0xA0 or o > 0x10FFFD:
        return False
    if 0xD800 <= o <= 0xDFFF:
        return False
    return not is_noncharacter(o)


# ------------------------------------------------------ percent-encode sets
# as predicates over byte values / code points < 0x80; >0x7E is always a member


def _mk(base, extra):
    return frozenset(base) | frozenset(ord(c) for c in extra)


C0 = frozenset(range(0, 0x20)) | frozenset(range(0x7F, 0x100))
FRAGMENT = _mk(C0, ' "<>`')
QUERY = _mk(C0, ' "#<>')
SPECIAL_QUERY = _mk(QUERY, "'")
PATH = _mk(QUERY, "?`{}")
USERINFO = _mk(PATH, "/:;=@[\\]^|")
COMPONENT = _mk(USERINFO, "$%&+,")
FORM = _mk(COMPONENT, "!'()~")


def pct_bytes(bs, encset, space_as_plus=False):
    out = []
    for b in bs:
        if space_as_plus and b == 0x20:
            out.append("+")
        elif b in encset:
            out.append("%%%02X" % b)
        else:
            out.append(chr(b))
    return "".join(out)


def pct_utf8(s, encset, space_as_plus=False):
    return pct_bytes(usv(s).encode("utf-8"), encset, space_as_plus)


def pct_encode_after_encoding(s, encset, encoding, space_as_plus=False):
    """percent-encode after encoding; `encoding` is a Python codec name."""
    s = usv(s)
    if encoding == "utf-8":
        return pct_bytes(s.encode("utf-8"), encset, space_as_plus)
    out = []
    # The Standard's "encode or fail" loop: encode as far as possible, then a
    # numeric character reference for the offending code point, then resume.
    # Encoders with state (ISO-2022-JP) return to ASCII before an error and at
    # the end of the queue.
    run = []

    def flush():
        if run:
            out.append(
                pct_bytes(
                    "".join(run).encode(encoding, "strict"), encset, space_as_plus
                )
            )
            run.clear()

    for c in s:
        try:
            c.encode(encoding, "strict")
        except UnicodeEncodeError:
            flush()
            out.append("%26%23" + str(ord(c)) + "%3B")
        else:
            run.append(c)
    flush()
    return "".join(out)


def pct_decode(bs):
    out = bytearray()
    i = 0
    n = len(bs)
    while i < n:
        b = bs[i]
        if (
            b == 0x25
            and i + 2 < n
            and chr(bs[i + 1]) in HEX
            and chr(bs[i + 2]) in HEX
        ):
            out.append(int(bs[i + 1 : i + 3].decode("ascii"), 16))
            i += 3
        else:
            out.append(b)
            i += 1
    return bytes(out)


def utf8_decode_lossy(bs):
    """UTF-8 decode (Encoding Standard): maximal-subpart replacement, BOM kept
    (the Standard strips a leading BOM only in 'UTF-8 decode', the urlencoded
    parser uses 'UTF-8 decode without BOM')."""
    out = []
    need = seen = cp = 0
    lower, upper = 0x80, 0xBF
    i = 0
    n = len(bs)
    while i < n:
        b = bs[i]
        if need == 0:
            if b < 0x80:
                out.append(chr(b))
            elif 0xC2 <= b <= 0xDF:
                need, cp = 1, b & 0x1F
            elif 0xE0 <= b <= 0xEF:
                if b == 0xE0:
                    lower = 0xA0
                if b == 0xED:
                    upper = 0x9F
                need, cp = 2, b & 0xF
            elif 0xF0 <= b <= 0xF4:
                if b == 0xF0:
                    lower = 0x90
                if b == 0xF4:
                    upper = 0x8F
                need, cp = 3, b & 0x7
            else:
                out.append("\ufffd")
            i += 1
            continue
        if not lower <= b <= upper:
            need = seen = cp = 0
            lower, upper = 0x80, 0xBF
            out.append("\ufffd")
            continue  # reprocess b
        lower, upper = 0x80, 0xBF
        cp = (cp << 6) | (b & 0x3F)
        seen += 1
        i += 1
        if seen == need:
            out.append(chr(cp))
            need = seen = cp = 0
    if need:
        out.append("\ufffd")
    return "".join(out)


# --------------------------------------------------------------- urlencoded


def parse_urlencoded(bs):
    out = []
    for seq in bs.split(b"&"):
        if not seq:
            continue
        i = seq.find(b"=")
        if i >= 0:
            name, value = seq[:i], seq[i + 1 :]
        else:
            name, value = seq, b""
        name = bytes(0x20 if b == 0x2B else b for b in name)
        value = bytes(0x20 if b == 0x2B else b for b in value)
        out.append(
            (
                utf8_decode_lossy(pct_decode(name)),
                utf8_decode_lossy(pct_decode(value)),
            )
        )
    return out


def serialize_urlencoded(pairs, encoding="utf-8"):
    return "&".join(
        pct_encode_after_encoding(n, FORM, encoding, True)
        + "="
        + pct_encode_after_encoding(v, FORM, encoding, True)
        for n, v in pairs
    )


# -------------------------------------------------------------------- hosts

FORBIDDEN_HOST = frozenset("\x00\t\n\r #/:<>?@[\\]^|")
FORBIDDEN_DOMAIN = (
    FORBIDDEN_HOST | frozenset(chr(i) for i in range(0x20)) | frozenset("%\x7f")
)

_IDNA = {}


def _uts46(options):
    if options not in _IDNA:
        _IDNA[options] = icu.IDNA.create_uts46_instance(options)
    return _IDNA[options]


_HYPHEN = (
    icu.UIDNA_ERROR_HYPHEN_3_4
    | icu.UIDNA_ERROR_LEADING_HYPHEN
    | icu.UIDNA_ERROR_TRAILING_HYPHEN
)
_LENGTH = (
    icu.UIDNA_ERROR_EMPTY_LABEL
    | icu.UIDNA_ERROR_LABEL_TOO_LONG
    | icu.UIDNA_ERROR_DOMAIN_NAME_TOO_LONG
)


def _ustr(s):
    return icu.UnicodeString(s, len(s.encode("utf-16-le")) // 2)


def uts46_to_ascii(domain, be_strict):
    """-> (string, significant error bits)"""
    opts = (
        icu.UIDNA_CHECK_BIDI
        | icu.UIDNA_CHECK_CONTEXTJ
        | icu.UIDNA_NONTRANSITIONAL_TO_ASCII
    )
    ignore = _HYPHEN  # CheckHyphens = false
    if be_strict:
        opts |= icu.UIDNA_USE_STD3_RULES
    else:
        ignore |= _LENGTH  # VerifyDnsLength = false
    info = icu.IDNAInfo()
    dest = icu.UnicodeString()
    _uts46(opts).name_to_ascii(_ustr(domain), dest, info)
    return str(dest), info.get_errors() & ~ignore


def uts46_to_unicode(domain, be_strict):
    opts = (
        icu.UIDNA_CHECK_BIDI
        | icu.UIDNA_CHECK_CONTEXTJ
        | icu.UIDNA_NONTRANSITIONAL_TO_UNICODE
    )
    if be_strict:
        opts |= icu.UIDNA_USE_STD3_RULES
    info = icu.IDNAInfo()
    dest = icu.UnicodeString()
    _uts46(opts).name_to_unicode(_ustr(domain), dest, info)
    return str(dest), info.get_errors() & ~(_HYPHEN | _LENGTH)


def domain_to_ascii(domain, be_strict=False, errs=None):
    errs = [] if errs is None else errs
    try:
        result, errors = uts46_to_ascii(usv(domain), be_strict)
    except icu.ICUError:
        errs.append("domain-to-ASCII")
        raise Fail("idna") from None
    if errors or result == "":
        errs.append("domain-to-ASCII")
        raise Fail("domain")
    return result


def domain_to_unicode(domain, be_strict=False, errs=None):
    errs = [] if errs is None else errs
    try:
        result, errors = uts46_to_unicode(usv(domain), be_strict)
    except icu.ICUError:
        errs.append("domain-to-Unicode")
        raise Fail("idna") from None
    if errors:
        errs.append("domain-to-Unicode")
    return result


def parse_ipv4_number(s):
    """-> None on failure, else (value, validation_error)"""
    if s == "":
        return None
    ve = False
    radix = 10
    if len(s) >= 2 and s[:2] in ("0x", "0X"):
        ve = True
        s = s[2:]
        radix = 16
    elif len(s) >= 2 and s[0] == "0":
        ve = True
        s = s[1:]
        radix = 8
    if s == "":
        return 0, True
    allowed = {10: DIGITS, 16: HEX, 8: OCT}[radix]
    value = 0
    for c in s:
        if c not in allowed:
            return None
        value = value * radix + "0123456789abcdef".index(c.lower())
        if value > 1 << 40:
            value = 1 << 40  # saturate: only ever compared with <= 2**32
    return value, ve


def ends_in_a_number(s):
    parts = s.split(".")
    if parts[-1] == "":
        if len(parts) == 1:
            return False
        parts.pop()
    last = parts[-1]
    if last != "" and all(c in DIGITS for c in last):
        return True
    return parse_ipv4_number(last) is not None


def parse_ipv4(s, errs):
    parts = s.split(".")
    if parts[-1] == "":
        errs.append("IPv4-empty-part")
        if len(parts) > 1:
            parts.pop()
    if len(parts) > 4:
        errs.append("IPv4-too-many-parts")
        raise Fail("ipv4")
    numbers = []
    for part in parts:
        r = parse_ipv4_number(part)
        if r is None:
            errs.append("IPv4-non-numeric-part")
            raise Fail("ipv4")
        if r[1]:
            errs.append("IPv4-non-decimal-part")
        numbers.append(r[0])
    if any(n > 255 for n in numbers):
        errs.append("IPv4-out-of-range-part")
    if any(n > 255 for n in numbers[:-1]):
        raise Fail("ipv4")
    if numbers[-1] >= 256 ** (5 - len(numbers)):
        raise Fail("ipv4")
    ipv4 = numbers[-1]
    for i, n in enumerate(numbers[:-1]):
        ipv4 += n * 256 ** (3 - i)
    return ipv4


def serialize_ipv4(a):
    return "%d.%d.%d.%d" % (a >> 24 & 255, a >> 16 & 255, a >> 8 & 255, a & 255)


def parse_ipv6(s, errs):
    address = [0] * 8
    piece_index = 0
    compress = None
    p = 0
    n = len(s)

    def c(i):
        return s[i] if i < n else None

    def bad(e):
        errs.append(e)
        raise Fail("ipv6", e)

    if c(p) == ":":
        if c(p + 1) != ":":
            bad("IPv6-invalid-compression")
        p += 2
        piece_index += 1
        compress = piece_index
    while p < n:
        if piece_index == 8:
            bad("IPv6-too-many-pieces")
        if c(p) == ":":
            if compress is not None:
                bad("IPv6-multiple-compression")
            p += 1
            piece_index += 1
            compress = piece_index
            continue
        value = length = 0
        while length < 4 and p < n and s[p] in HEX:
            value = value * 16 + int(s[p], 16)
            p += 1
            length += 1
        if c(p) == ".":
            if length == 0:
                bad("IPv4-in-IPv6-invalid-code-point")
            p -= length
            if piece_index > 6:
                bad("IPv4-in-IPv6-too-many-pieces")
            seen = 0
            while p < n:
                ipv4_piece = None
                if seen > 0:
                    if s[p] == "." and seen < 4:
                        p += 1
                    else:
                        bad("IPv4-in-IPv6-invalid-code-point")
                if p >= n or s[p] not in DIGITS:
                    bad("IPv4-in-IPv6-invalid-code-point")
                while p < n and s[p] in DIGITS:
                    number = ord(s[p]) - 48
                    if ipv4_piece is None:
                        ipv4_piece = number
                    elif ipv4_piece == 0:
                        bad("IPv4-in-IPv6-invalid-code-point")
                    else:
                        ipv4_piece = ipv4_piece * 10 + number
                    if ipv4_piece > 255:
                        bad("IPv4-in-IPv6-out-of-range-part")
                    p += 1
                address[piece_index] = address[piece_index] * 0x100 + ipv4_piece
                seen += 1
                if seen in (2, 4):
                    piece_index += 1
            if seen != 4:
                bad("IPv4-in-IPv6-too-few-parts")
            break
        elif c(p) == ":":
            p += 1
            if p >= n:
                bad("IPv6-invalid-code-point")
        elif p < n:
            bad("IPv6-invalid-code-point")
        address[piece_index] = value
        piece_index += 1
    if compress is not None:
        swaps = piece_index - compress
        piece_index = 7
        while piece_index != 0 and swaps > 0:
            j = compress + swaps - 1
            address[piece_index], address[j] = address[j], address[piece_index]
            piece_index -= 1
            swaps -= 1
    elif piece_index != 8:
        bad("IPv6-too-few-pieces")
    return tuple(address)


def serialize_ipv6(a):
    best, best_len = None, 1
    i = 0
    while i < 8:
        if a[i]:
            i += 1
            continue
        j = i
        while j < 8 and a[j] == 0:
            j += 1
        if j - i > best_len:
            best, best_len = i, j - i
        i = j
    if best is None:
        return ":".join("%x" % x for x in a)
    return (
        ":".join("%x" % x for x in a[:best])
        + "::"
        + ":".join("%x" % x for x in a[best + best_len :])
    )


def bad_url_units(s, errs, forbidden=()):
    """Opaque hosts: one error if any code point is not a URL code point and not
    '%', one if a '%' is not followed by two hex digits (the Standard reports
    each kind once per host)."""
    a = any(not is_url_code_point(c) and c != "%" for c in s)
    b = any(
        c == "%" and not (len(s) > i + 2 and s[i + 1] in HEX and s[i + 2] in HEX)
        for i, c in enumerate(s)
    )
    if a:
        errs.append("invalid-URL-unit")
    if b:
        # marked, as the two kinds may be reported as one error
        errs.append("invalid-URL-unit?" if a else "invalid-URL-unit")


def parse_host(s, is_opaque, errs):
    if s.startswith("["):
        if not s.endswith("]"):
            errs.append("IPv6-unclosed")
            raise Fail("ipv6", "unclosed")
        return parse_ipv6(s[1:-1], errs)
    if is_opaque:
        if any(c in FORBIDDEN_HOST for c in s):
            errs.append("host-invalid-code-point")
            raise Fail("host")
        bad_url_units(s, errs)
        return pct_utf8(s, C0)
    domain = utf8_decode_lossy(pct_decode(usv(s).encode("utf-8")))
    # "UTF-8 decode without BOM": a BOM is kept
    ascii_domain = domain_to_ascii(domain, False, errs)
    if any(c in FORBIDDEN_DOMAIN for c in ascii_domain):
        errs.append("domain-invalid-code-point")
        raise Fail("host")
    if ends_in_a_number(ascii_domain):
        return parse_ipv4(ascii_domain, errs)
    return ascii_domain


def serialize_host(h):
    if isinstance(h, int):
        return serialize_ipv4(h)
    if isinstance(h, (tuple, list)):
        return "[" + serialize_ipv6(h) + "]"
    return h


# --------------------------------------------------------------- URL record

SPECIAL = {"ftp": 21, "file": None, "http": 80, "https": 443, "ws": 80, "wss": 443}


class Rec:
    __slots__ = (
        "scheme",
        "username",
        "password",
        "host",
        "port",
        "path",
        "query",
        "fragment",
    )

    def __init__(self):
        self.scheme = ""
        self.username = ""
        self.password = ""
        self.host = None
        self.port = None
        self.path = []
        self.query = None
        self.fragment = None

    def copy(self):
        r = Rec()
        for k in Rec.__slots__:
            setattr(r, k, getattr(self, k))
        if isinstance(r.path, list):
            r.path = list(r.path)
        return r

    def tup(self):
        return (
            self.scheme,
            self.username,
            self.password,
            self.host,
            self.port,
            tuple(self.path) if isinstance(self.path, list) else self.path,
            self.query,
            self.fragment,
        )

    @property
    def special(self):
        return self.scheme in SPECIAL

    @property
    def opaque(self):
        return isinstance(self.path, str)

    def creds(self):
        return self.username != "" or self.password != ""

    def cannot_have_upp(self):
        return self.host is None or self.host == "" or self.scheme == "file"

    def shorten(self):
        if (
            self.scheme == "file"
            and len(self.path) == 1
            and is_norm_drive(self.path[0])
        ):
            return
        if self.path:
            self.path.pop()

    def path_str(self):
        return self.path if self.opaque else "".join("/" + p for p in self.path)

    def href(self, exclude_fragment=False):
        out = self.scheme + ":"
        if self.host is not None:
            out += "//"
            if self.creds():
                out += self.username
                if self.password != "":
                    out += ":" + self.password
                out += "@"
            out += serialize_host(self.host)
            if self.port is not None:
                out += ":" + str(self.port)
        elif not self.opaque and len(self.path) > 1 and self.path[0] == "":
            out += "/."
        out += self.path_str()
        if self.query is not None:
            out += "?" + self.query
        if not exclude_fragment and self.fragment is not None:
            out += "#" + self.fragment
        return out

    def origin(self):
        """None = opaque origin, else (scheme, host, port)"""
        if self.scheme == "blob":
            try:
                p = parse(self.path_str())
            except Fail:
                return None
            if p.scheme in ("http", "https"):
                return p.origin()
            return None
        if self.scheme in ("ftp", "http", "https", "ws", "wss"):
            return (self.scheme, self.host, self.port)
        return None

    def strip_opaque(self):
        if self.opaque and self.query is None and self.fragment is None:
            self.path = self.path.rstrip(" ")


def serialize_origin(o):
    if o is None:
        return "null"
    s = o[0] + "://" + serialize_host(o[1])
    if o[2] is not None:
        s += ":" + str(o[2])
    return s


def is_drive(s):
    return len(s) == 2 and s[0] in ALPHA and s[1] in ":|"


def is_norm_drive(s):
    return len(s) == 2 and s[0] in ALPHA and s[1] == ":"


def starts_with_drive(s):
    return len(s) >= 2 and is_drive(s[:2]) and (len(s) == 2 or s[2] in "/\\?#")


def single_dot(s):
    return s.lower() in (".", "%2e")


def double_dot(s):
    return s.lower() in ("..", ".%2e", "%2e.", "%2e%2e")


C0_SPACE = "".join(chr(i) for i in range(0x21))


def output_encoding(label):
    """Which codec the query is encoded with (Standard: 'get an output
    encoding'; UTF-16 variants map to UTF-8)."""
    try:
        name = codecs.lookup(label).name
    except LookupError:
        return label
    if name in ("utf-8", "utf-16", "utf-16-le", "utf-16-be"):
        return "utf-8"
    return name


def parse(inp, base=None, encoding="utf-8", url=None, override=None, errs=None):
    """The basic URL parser.  Returns the record (mutated in place when `url`
    is given); raises Fail on failure."""
    errs = [] if errs is None else errs
    if url is None:
        url = Rec()
        stripped = inp.strip(C0_SPACE)
        if stripped != inp:
            errs.append("invalid-URL-unit")
            inp = stripped
    no_tabs = "".join(c for c in inp if c not in "\t\n\r")
    if no_tabs != inp:
        errs.append("invalid-URL-unit")
        inp = no_tabs
    # Python-specific: a str may hold surrogates.  A pair that becomes adjacent
    # only once a tab between its halves is dropped counts as a pair.
    inp = usv(inp)
    state = override or "scheme start"
    encoding = output_encoding(encoding)
    buffer = ""
    at_seen = in_brackets = pw_seen = False
    n = len(inp)
    p = 0

    def hexpair(i):
        return i + 2 < n and inp[i + 1] in HEX and inp[i + 2] in HEX

    def unit_errors(c):
        if not is_url_code_point(c) and c != "%":
            errs.append(At("invalid-URL-unit", p))
        if c == "%" and not hexpair(p):
            errs.append(At("invalid-URL-unit", p))

    def fail(e=None, kind="url"):
        if e:
            errs.append(e)
        raise Fail(kind, e or "")

    while True:
        c = inp[p] if p < n else None  # None = EOF code point
        if state == "scheme start":
            if c is not None and c in ALPHA:
                buffer += _lower_ascii(c)
                state = "scheme"
            elif override is None:
                state = "no scheme"
                p -= 1
            else:
                fail()
        elif state == "scheme":
            if c is not None and (c in ALNUM or c in "+-."):
                buffer += _lower_ascii(c)
            elif c == ":":
                if override:
                    if (url.scheme in SPECIAL) != (buffer in SPECIAL):
                        return url
                    if (url.creds() or url.port is not None) and buffer == "file":
                        return url
                    if url.scheme == "file" and url.host in (None, ""):
                        return url
                url.scheme = buffer
                if override:
                    if url.port is not None and SPECIAL.get(url.scheme) == url.port:
                        url.port = None
                    return url
                buffer = ""
                if url.scheme == "file":
                    if inp[p + 1 : p + 3] != "//":
                        errs.append(At("special-scheme-missing-following-solidus", p + 1))
                    state = "file"
                elif url.special and base is not None and base.scheme == url.scheme:
                    state = "special relative or authority"
                elif url.special:
                    state = "special authority slashes"
                elif inp[p + 1 : p + 2] == "/":
                    state = "path or authority"
                    p += 1
                else:
                    url.path = ""
                    state = "opaque path"
            elif override is None:
                buffer = ""
                state = "no scheme"
                p = -1
            else:
                fail()
        elif state == "no scheme":
            if base is None or (base.opaque and c != "#"):
                fail("missing-scheme-non-relative-URL")
            elif base.opaque and c == "#":
                url.scheme = base.scheme
                url.path = base.path
                url.query = base.query
                url.fragment = ""
                state = "fragment"
            elif base.scheme != "file":
                state = "relative"
                p -= 1
            else:
                state = "file"
                p -= 1
        elif state == "special relative or authority":
            if c == "/" and inp[p + 1 : p + 2] == "/":
                state = "special authority ignore slashes"
                p += 1
            else:
                errs.append(At("special-scheme-missing-following-solidus", p))
                state = "relative"
                p -= 1
        elif state == "path or authority":
            if c == "/":
                state = "authority"
            else:
                state = "path"
                p -= 1
        elif state == "relative":
            url.scheme = base.scheme
            if c == "/":
                state = "relative slash"
            elif url.special and c == "\\":
                errs.append(At("invalid-reverse-solidus", p))
                state = "relative slash"
            else:
                url.username, url.password = base.username, base.password
                url.host, url.port = base.host, base.port
                url.path = list(base.path)
                url.query = base.query
                if c == "?":
                    url.query = ""
                    state = "query"
                elif c == "#":
                    url.fragment = ""
                    state = "fragment"
                elif c is not None:
                    url.query = None
                    url.shorten()
                    state = "path"
                    p -= 1
        elif state == "relative slash":
            if url.special and c in ("/", "\\"):
                if c == "\\":
                    errs.append(At("invalid-reverse-solidus", p))
                state = "special authority ignore slashes"
            elif c == "/":
                state = "authority"
            else:
                url.username, url.password = base.username, base.password
                url.host, url.port = base.host, base.port
                state = "path"
                p -= 1
        elif state == "special authority slashes":
            if c == "/" and inp[p + 1 : p + 2] == "/":
                state = "special authority ignore slashes"
                p += 1
            else:
                errs.append(At("special-scheme-missing-following-solidus", p))
                state = "special authority ignore slashes"
                p -= 1
        elif state == "special authority ignore slashes":
            if c not in ("/", "\\"):
                state = "authority"
                p -= 1
            else:
                errs.append(At("special-scheme-missing-following-solidus", p))
        elif state == "authority":
            if c == "@":
                errs.append(At("invalid-credentials", p))
                if at_seen:
                    buffer = "%40" + buffer
                at_seen = True
                for cp in buffer:
                    if cp == ":" and not pw_seen:
                        pw_seen = True
                        continue
                    if pw_seen:
                        url.password += pct_utf8(cp, USERINFO)
                    else:
                        url.username += pct_utf8(cp, USERINFO)
                buffer = ""
            elif c is None or c in "/?#" or (url.special and c == "\\"):
                if at_seen and buffer == "":
                    fail("invalid-credentials")
                p -= len(buffer) + 1
                buffer = ""
                state = "host"
            else:
                buffer += c
        elif state in ("host", "hostname"):
            if override and url.scheme == "file":
                p -= 1
                state = "file host"
            elif c == ":" and not in_brackets:
                if buffer == "":
                    fail("host-missing")
                if override == "hostname":
                    return url
                url.host = parse_host(buffer, not url.special, errs)
                buffer = ""
                state = "port"
            elif c is None or c in "/?#" or (url.special and c == "\\"):
                p -= 1
                if url.special and buffer == "":
                    fail("host-missing")
                elif (
                    override
                    and buffer == ""
                    and (url.creds() or url.port is not None)
                ):
                    return url
                url.host = parse_host(buffer, not url.special, errs)
                buffer = ""
                state = "path start"
                if override:
                    return url
            else:
                if c == "[":
                    in_brackets = True
                if c == "]":
                    in_brackets = False
                buffer += c
        elif state == "port":
            if c is not None and c in DIGITS:
                buffer += c
            elif c is None or c in "/?#" or (url.special and c == "\\") or override:
                if buffer != "":
                    digits = buffer.lstrip("0")
                    if len(digits) > 5 or int(digits or "0") > 65535:
                        fail("port-out-of-range")
                    port = int(digits or "0")
                    url.port = None if SPECIAL.get(url.scheme) == port else port
                    buffer = ""
                if override:
                    return url
                state = "path start"
                p -= 1
            else:
                fail("port-invalid")
        elif state == "file":
            url.scheme = "file"
            url.host = ""
            if c is not None and c in "/\\":
                if c == "\\":
                    errs.append(At("invalid-reverse-solidus", p))
                state = "file slash"
            elif base is not None and base.scheme == "file":
                url.host = base.host
                url.path = list(base.path)
                url.query = base.query
                if c == "?":
                    url.query = ""
                    state = "query"
                elif c == "#":
                    url.fragment = ""
                    state = "fragment"
                elif c is not None:
                    url.query = None
                    if not starts_with_drive(inp[p:]):
                        url.shorten()
                    else:
                        errs.append(At("file-invalid-Windows-drive-letter", p))
                        url.path = []
                    state = "path"
                    p -= 1
            else:
                state = "path"
                p -= 1
        elif state == "file slash":
            if c is not None and c in "/\\":
                if c == "\\":
                    errs.append(At("invalid-reverse-solidus", p))
                state = "file host"
            else:
                if base is not None and base.scheme == "file":
                    url.host = base.host
                    if (
                        not starts_with_drive(inp[p:])
                        and base.path
                        and is_norm_drive(base.path[0])
                    ):
                        url.path.append(base.path[0])
                state = "path"
                p -= 1
        elif state == "file host":
            if c is None or c in "/\\?#":
                p -= 1
                if override is None and is_drive(buffer):
                    errs.append(At("file-invalid-Windows-drive-letter-host", p + 1 - len(buffer)))
                    state = "path"  # buffer is kept, per the Standard
                elif buffer == "":
                    url.host = ""
                    if override:
                        return url
                    state = "path start"
                else:
                    host = parse_host(buffer, not url.special, errs)
                    if host == "localhost":
                        host = ""
                    url.host = host
                    if override:
                        return url
                    buffer = ""
                    state = "path start"
            else:
                buffer += c
        elif state == "path start":
            if url.special:
                if c == "\\":
                    errs.append(At("invalid-reverse-solidus", p))
                state = "path"
                if c not in ("/", "\\"):
                    p -= 1
            elif override is None and c == "?":
                url.query = ""
                state = "query"
            elif override is None and c == "#":
                url.fragment = ""
                state = "fragment"
            elif c is not None:
                state = "path"
                if c != "/":
                    p -= 1
            elif override and url.host is None:
                url.path.append("")
        elif state == "path":
            if (
                c is None
                or c == "/"
                or (url.special and c == "\\")
                or (override is None and c in "?#")
            ):
                if url.special and c == "\\":
                    errs.append(At("invalid-reverse-solidus", p))
                slash = c == "/" or (url.special and c == "\\")
                if double_dot(buffer):
                    url.shorten()
                    if not slash:
                        url.path.append("")
                elif single_dot(buffer):
                    if not slash:
                        url.path.append("")
                else:
                    if url.scheme == "file" and not url.path and is_drive(buffer):
                        buffer = buffer[0] + ":"
                    url.path.append(buffer)
                buffer = ""
                if c == "?":
                    url.query = ""
                    state = "query"
                if c == "#":
                    url.fragment = ""
                    state = "fragment"
            else:
                unit_errors(c)
                buffer += pct_utf8(c, PATH)
        elif state == "opaque path":
            if c == "?":
                url.query = ""
                state = "query"
            elif c == "#":
                url.fragment = ""
                state = "fragment"
            elif c is not None:
                unit_errors(c)
                url.path += pct_utf8(c, C0)
        elif state == "query":
            if encoding != "utf-8" and (
                not url.special or url.scheme in ("ws", "wss")
            ):
                encoding = "utf-8"
            if (override is None and c == "#") or c is None:
                url.query += pct_encode_after_encoding(
                    buffer, SPECIAL_QUERY if url.special else QUERY, encoding
                )
                buffer = ""
                if c == "#":
                    url.fragment = ""
                    state = "fragment"
            else:
                unit_errors(c)
                buffer += c
        elif state == "fragment":
            if c is not None:
                unit_errors(c)
                url.fragment += pct_utf8(c, FRAGMENT)
        else:
            raise AssertionError(state)
        if c is None and p >= n:
            break
        p += 1
    return url


# ------------------------------------------------------------- URL interface


class ModelURL:
    """The Standard's URL class.  A rejected assignment sets self.rejected."""

    def __init__(self, url, base=None, encoding="utf-8"):
        b = None
        if base is not None:
            b = base.rec if isinstance(base, ModelURL) else parse(base)
        self.rec = parse(url, b, encoding)
        self.params = parse_urlencoded((self.rec.query or "").encode())
        self.rejected = False

    def snapshot(self):
        r = self.rec
        host = "" if r.host is None else serialize_host(r.host)
        return {
            "href": r.href(),
            "origin": serialize_origin(r.origin()),
            "protocol": r.scheme + ":",
            "username": r.username,
            "password": r.password,
            "host": host + (":" + str(r.port) if r.port is not None else ""),
            "hostname": host,
            "port": "" if r.port is None else str(r.port),
            "pathname": r.path_str(),
            "search": "?" + r.query if r.query else "",
            "hash": "#" + r.fragment if r.fragment else "",
            "params": list(self.params),
        }

    def _override(self, value, state):
        try:
            parse(value, url=self.rec, override=state)
        except Fail:
            self.rejected = True

    def set(self, attr, value):
        r = self.rec
        self.rejected = False
        if attr == "href":
            try:
                new = parse(value)
            except Fail:
                self.rejected = True
                return
            self.rec = new
            self.params = parse_urlencoded((new.query or "").encode())
        elif attr == "protocol":
            self._override(value + ":", "scheme start")
        elif attr == "username":
            if not r.cannot_have_upp():
                r.username = pct_utf8(value, USERINFO)
        elif attr == "password":
            if not r.cannot_have_upp():
                r.password = pct_utf8(value, USERINFO)
        elif attr == "host":
            if not r.opaque:
                self._override(value, "host")
        elif attr == "hostname":
            if not r.opaque:
                self._override(value, "hostname")
        elif attr == "port":
            if r.cannot_have_upp():
                return
            if value == "":
                r.port = None
            else:
                self._override(value, "port")
        elif attr == "pathname":
            if r.opaque:
                return
            r.path = []
            self._override(value, "path start")
        elif attr == "search":
            if value == "":
                r.query = None
                self.params = []
                r.strip_opaque()
                return
            v = value[1:] if value.startswith("?") else value
            r.query = ""
            self._override(v, "query")
            # The Standard parses the raw input here, which differs from the
            # new query when the input holds tabs or newlines (the parser drops
            # them); urlstd, like browsers, re-reads the query it just stored.
            self.params = parse_urlencoded(r.query.encode("utf-8"))
        elif attr == "hash":
            if value == "":
                r.fragment = None
                r.strip_opaque()
                return
            v = value[1:] if value.startswith("#") else value
            r.fragment = ""
            self._override(v, "fragment")
        else:
            raise AssertionError(attr)

    def params_changed(self):
        q = serialize_urlencoded(self.params)
        self.rec.query = q if q != "" else None
        if q == "":
            self.rec.strip_opaque()
