"""Structured generators.  Every random decision goes through the Source."""

import json
import os

from engine import dec, harvest_constants

HERE = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(HERE, "..", "corpus", "seeds.json")) as f:
    SEEDS = dec(json.load(f))
with open(os.path.join(HERE, "..", "corpus", "constants.json")) as f:
    _known = json.load(f)

SRC_STRS, SRC_INTS = harvest_constants()
# literals the pinned tree does not have get extra weight (directed search)
NEW_STRS = [s for s in SRC_STRS if s not in set(_known["strs"])]
NEW_INTS = [i for i in SRC_INTS if i not in set(_known["ints"])]
NEW_CHARS = sorted(
    {c for s in NEW_STRS for c in s if not (c.isascii() and c.isalnum())}
    | {
        chr(i)
        for i in NEW_INTS
        if 0x21 <= i <= 0x10FFFF and not 0xD800 <= i <= 0xDFFF
    }
)[:400]
# (they only steer the search; an oracle never looks at them)

SPECIAL = ["http", "https", "ws", "wss", "ftp", "file"]
NONSPECIAL = [
    "foo",
    "a",
    "data",
    "javascript",
    "mailto",
    "blob",
    "about",
    "web+demo",
    "non-special",
    "ssh",
    "git+ssh",
    "x.y-z+1",
    "urn",
    "gopher",
    "tel",
    "httpx",
    "htt",
    "files",
    "w",
    "wsss",
]
ASCII = [chr(i) for i in range(0x20, 0x7F)]
LETTERS = "abcdefghijklmnopqrstuvwxyz"
ALNUM = LETTERS + LETTERS.upper() + "0123456789"
DELIMS = list("/\\?#@:[]|%&=;,.+!$'()*~^`{}<>\" -_")
CONTROLS = [chr(i) for i in range(0x20)] + ["\x7f"]
WEIRD = list(
    "\x80\x85\x9f\xa0\xad\xaa\xb2\xb9\xbf\xc0\xd7\xdf\xe9\xf1\xff"
    "\u0130\u0131\u017f\u01c4\u0300\u0301\u0345\u034f\u03a3\u03c2\u03c3\u03b2\u0391"
    "\u0430\u0410\u04cf\u05d0\u05d1\u0627\u0660\u0661\u06f1\u06f0\u0915\u094d\u200b"
    "\u0e33\u1e9e\u1d2c\u2000\u200c\u200d\u200e\u200f\u2024\u2025\u2026\u2028\u2029"
    "\u202e\u2044\u2060\u2070\u2074\u2090\u2100\u2102\u2103\u210e\u2110\u2115\u2160"
    "\u2170\u2260\u226e\u2488\u249c\u24b6\u2f00\u2f1d\u3000\u3001\u3002\u3042\u30a2"
    "\u30fb\u3131\u3220\u4e00\u4e2d\u6587\uac00\uf900\ufb00\ufb03\ufb01\ufdd0\ufdef"
    "\ufe0f\ufe30\ufe52\ufeff\uff0e\uff0f\uff11\uff10\uff1a\uff1f\uff20\uff21\uff41"
    "\uff03\uff05\uff3b\uff3d\uff61\uffa0\uffe0\ufffd\ufffe\uffff"
    "\U00010000\U00010400\U0001d400\U0001d7ce\U0001f308\U0001f4a9\U0001f100\U0001fffe"
    "\U0001ffff\U00020000\U0002f800\U000e0001\U000e0100\U000f0000\U0010fffd\U0010ffff"
)
SURR = ["\ud800", "\udbff", "\udc00", "\udfff", "\ud83c", "\udf08", "\ud83c\udf08"]
LEGACY = list("\u20ac\u3042\u8868\u80fd\u4e02\uff61\xa5\u203e\u2212\u0401\u0411\u0e01\xd0\xff\xe9")

ENCODINGS = [
    "utf-8",
    "windows-1252",
    "windows-1251",
    "iso-8859-2",
    "koi8-r",
    "shift_jis",
    "euc-jp",
    "iso-2022-jp",
    "gbk",
    "gb18030",
    "big5",
    "euc-kr",
    "utf-16be",
    "utf-16le",
    "UTF-8",
    "Windows-1252",
    "ibm866",
    "iso-8859-1",
    "us-ascii",
    "utf8",
    "iso-8859-15",
    "cp874",
    "utf-16",
    "utf-16-be",
    "utf-16-le",
    "utf_16_be",
    "utf_16_le",
    "utf_16",
    "utf_8",
    "u8",
    "cp65001",
    "iso8859_2",
    "latin_1",
    "sjis",
    "cp1252",
    "ks_c_5601-1987",
    "macintosh",
]


def dict_str(src):
    """a literal of the code under test"""
    if NEW_STRS and src.chance(3, 4):
        return src.choice(NEW_STRS)
    return src.choice(SRC_STRS) if SRC_STRS else ""


def dict_int(src):
    pool = SRC_INTS
    if NEW_INTS and src.chance(3, 4):
        pool = NEW_INTS
    v = src.choice(pool) if pool else 0
    return max(0, v + (0, 0, 1, -1)[src.draw(4)])


def length(src, avg, hi, cap=400):
    """a count with a heavy tail, and a pull towards new integer literals"""
    k = src.draw(64)
    if k == 63:
        return src.between(0, min(cap, 8 * hi))
    if k >= 56 and NEW_INTS:
        return min(cap, max(0, src.choice(NEW_INTS) + (0, 1, -1, 2)[src.draw(4)]))
    if k == 62:
        return min(cap, src.choice([7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257]))
    return src.size(avg, hi)


def char(src, surrogates=True):
    if NEW_CHARS and src.chance(1, 24):
        return src.choice(NEW_CHARS)
    k = src.draw(16)
    if k < 5:
        return src.choice(ALNUM)
    if k < 9:
        return src.choice(DELIMS)
    if k == 9:
        return src.choice(ASCII)
    if k == 10:
        return "%" + src.choice(
            ["2e", "2E", "41", "00", "ff", "C3", "e9", "25", "2F", "5c", "3a", "40",
             "", "4", "zz", "7f", "20", "E2%98%83", "F0%9F%8C%88", "ef%bb%bf", "2e%2e"]
        )
    if k == 11:
        return src.choice(CONTROLS)
    if k < 14:
        return src.choice(WEIRD)
    if k == 14:
        if surrogates and src.chance(1, 2):
            return src.choice(SURR)
        return src.choice(LEGACY)
    o = src.draw(0x10FFFF + 1)
    if 0xD800 <= o <= 0xDFFF and not surrogates:
        o = 0x41
    return chr(o)


def text(src, avg=4, hi=40, surrogates=True):
    if src.chance(1, 40):
        s = dict_str(src)
    elif src.chance(1, 60):
        # a long run: boundaries on length
        if src.chance(1, 2):
            n = min(dict_int(src), 70000 if src.chance(1, 40) else 300)
        else:
            n = src.between(1, 300)
        c = char(src, surrogates)
        # very long only in plain letters: what is invalid costs quadratic time
        s = (c if n <= 1000 else "a") * n
        if surrogates and n <= 1000 and src.chance(1, 6):
            # pairs across every even or every odd boundary
            s = src.choice(["", "a"]) + src.choice(["\ud83c\udf08", "\ud83c\udf08", "\U0001f308", "\u00e9"]) * (n // 2 + 1)
    else:
        s = ""
    return s + "".join(char(src, surrogates) for _ in range(src.size(avg, hi)))


def word(src, avg=4, hi=12):
    return "".join(src.choice(ALNUM) for _ in range(src.size(avg, hi)))


def case_mix(src, s):
    if src.chance(1, 4):
        return "".join(c.upper() if src.chance(1, 2) else c for c in s)
    return s


# ------------------------------------------------------------------- hosts


def ipv4_num(src, hi=255):
    k = src.draw(12)
    if k < 4:
        v = src.between(0, 255)
    elif k < 6:
        v = src.choice([0, 1, 7, 8, 9, 10, 127, 128, 254, 255, 256, 257])
    elif k < 8:
        v = src.choice(
            [65535, 65536, 16777215, 16777216, 2**32 - 1, 2**32, 2**32 + 1, 2**31,
             2**64, 2**33, 999999999999]
        )
    elif k == 8:
        v = dict_int(src)
    else:
        v = src.draw(2**32 + 5)
    f = src.draw(10)
    if f < 5:
        return str(v)
    if f == 5:
        return "0x%x" % v
    if f == 6:
        return "0X%X" % v
    if f == 7:
        return "0%o" % v
    if f == 8:
        return "0x" + "0" * src.between(0, 6) + "%x" % v
    return "0" * src.between(0, 6) + "%o" % v


def ipv4ish(src):
    k = src.draw(6)
    if k == 0:
        parts = [str(src.between(0, 255)) for _ in range(4)]
    else:
        n = src.choice([4, 3, 2, 1, 4, 4, 5])
        parts = [
            ipv4_num(src) if src.chance(1, 2) or i == n - 1 else str(src.between(0, 255))
            for i in range(n)
        ]
    if src.chance(1, 5):
        i = src.draw(len(parts))
        parts[i] = src.choice(
            ["", "0x", "0X", "08", "09", "0xg", "1e1", "+1", "-1", "1_0", "0_1", "0x_1",
             "0x+1", "00o7", "0o7", "0b1", "00b1", "0x0x1", "00x1", " 1", "1 ", "\u0661",
             "\uff11", "a", "0" * 20, "0" * 12 + "7", "4294967295", "4294967296", "%31",
             "1%2e2", "0x100", "0400", "256", "0x7f000001", "1" * 30, "1\u30022",
             "9" * 4301, "7" * 4300]
        )
    s = ".".join(parts)
    if src.chance(1, 6):
        s += src.choice([".", "..", ".a", ".0x", ".1.", ".09", ":", "\u3002"])
    if src.chance(1, 12):
        s = src.choice(["a.", "foo.", ".", "1.2.3.", "xn--a."]) + s
    return s


def hexpiece(src):
    k = src.draw(8)
    if k < 2:
        return "0"
    if k < 6:
        v = src.draw(0x10000)
        s = "%x" % v
        if src.chance(1, 4):
            s = s.upper()
        if src.chance(1, 6):
            s = s.zfill(4)
        return s
    return src.choice(["0", "1", "f", "ffff", "0000", "00", "abcd", "1000", "A0"])


def ipv6_valid_pieces(src):
    return [0 if src.chance(1, 2) else src.draw(0x10000) for _ in range(8)]


def ipv6ish(src):
    """the text inside the brackets"""
    k = src.draw(10)
    n = src.choice([8, 8, 7, 6, 5, 4, 3, 2, 1, 0, 9])
    pieces = [hexpiece(src) for _ in range(n)]
    if k < 7 and src.chance(2, 3):
        # put a compression somewhere
        i = src.draw(n + 1)
        s = ":".join(pieces[:i]) + "::" + ":".join(pieces[i:])
    else:
        s = ":".join(pieces)
    if src.chance(1, 4):
        v4 = ".".join(
            src.choice(["0", "1", "255", "10", "192", "99"]) for _ in range(
                src.choice([4, 4, 4, 4, 3, 5, 2]))
        )
        if src.chance(1, 5):
            v4 = src.choice(
                ["1.2.3.256", "01.2.3.4", "1.2.3.00", "1..2.3", "1.2.3.", ".1.2.3",
                 "a.1.2.3", "1.2.3.4.", "1.2.3.4x", "0x1.2.3.4", "1.2.3.999",
                 "1.2.3.4:5", "1.2.3.4::", "1.2.3.+4", "1.2.3.1_0"]
            )
        if s == "" or s.endswith(":"):
            s += v4
        elif src.chance(4, 5):
            s += ":" + v4
        else:
            i = s.rfind(":")
            s = s[: i + 1] + v4 if i >= 0 else v4
        if src.chance(1, 6):
            s += src.choice([":", "::", ":1", "::1", ".", ".5"])
    if src.chance(1, 6):
        i = src.draw(len(s) + 1)
        s = s[:i] + src.choice(
            [":", "::", ".", "g", "%", "[", "]", " ", "\u0661", "_", "-", "+", "0", "x", "%25eth0"]
        ) + s[i:]
    if src.chance(1, 10) and s:
        i = src.draw(len(s))
        s = s[:i] + s[i + 1 :]
    return s


def label(src):
    k = src.draw(14)
    if k < 6:
        return word(src) or "a"
    if k == 6:
        return src.choice(
            ["xn--", "xn--a", "xn--zca", "xn--fa-hia", "xn--bcher-kva", "xn--1ug",
             "xn--pgb911izv33i", "xn--", "xn--0", "XN--ZCA", "xn--xn---epa", "xn--nxa",
             "xn--a-yoc", "xn--iñvalid", "xn--ls8h", "ab--cd", "a--b", "-a", "a-", "-",
             "xn--mgba3gch31f060k", "xn--ASCII-", "xn--unicode-", "a_b", "_", "*"]
        )
    if k == 7:
        return "".join(src.choice(WEIRD) for _ in range(1 + src.draw(4)))
    if k == 8:
        return src.choice(
            ["faß", "bücher", "Bücher", "ÄÖÜ", "straße", "☃", "日本語", "пример",
             "ΒΌΛΟΣ", "βόλος", "نامه\u200cای", "a\u200cb", "a\u200db", "\u05d0a", "a\u05d0",
             "\u05d01", "1\u05d0", "\u0300a", "a\u0300", "e\u0301", "\u00ad", "a\u00adb",
             "ﬃ", "Ａ", "１", "％", "℀", "ⅷ", "½", "K", "İ", "ſ", "ß", "ς", "\u200c", "≠",
             "\U0001f4a9", "\ufdd0", "\U0001fffe", "\u0b95\u0bcd\u200d"]
        )
    if k == 9:
        s = src.choice(["é", "ß", "\u3042", "a", "A", ".", "%", "/", "\u00ad", "\ud800", "1", " "])
        try:
            return "".join("%%%02x" % b for b in s.encode("utf-8"))
        except UnicodeEncodeError:
            return "%ed%a0%80"
    if k == 10:
        return src.choice(LETTERS) * src.choice([1, 62, 63, 64, 65, 100, 200])
    if k == 11:
        return "".join(char(src) for _ in range(src.size(3, 6)))
    if k == 12:
        return src.choice(SEEDS["domains"])
    return src.choice(["localhost", "LOCALHOST", "example", "com", "1", "0x1", "", "a", "%", "%41"])


def domain(src):
    if src.chance(1, 14):
        return src.choice(SEEDS["domains"])
    if src.chance(1, 30):
        # long domains around 253..255
        n = src.choice([252, 253, 254, 255, 256, 300])
        s = ""
        while len(s) < n:
            s += "a" * min(63, n - len(s)) + "."
        return s[:n]
    n = src.choice([1, 2, 3, 1, 2, 4]) if not src.chance(1, 40) else length(src, 3, 8, 40)
    s = src.choice([".", ".", ".", ".", "\u3002", "%2e", "．"]).join(
        label(src) for _ in range(n)
    )
    if src.chance(1, 10):
        s += src.choice([".", "..", ".1", ".0x", ".com", "\u3002", "/"])
    if src.chance(1, 30) and s:
        # an escape of an escape, which must not be decoded twice
        i = src.draw(len(s))
        s = s[:i] + "".join("%%25%02x" % b for b in s[i].encode("utf-8", "replace")) + s[i + 1 :]
    return s


def plain_domain(src):
    n = 1 + src.draw(3)
    return ".".join((src.choice(LETTERS) + word(src, 3, 8)).lower() for _ in range(n))


def host(src):
    k = src.draw(12)
    if k < 3:
        return plain_domain(src)
    if k < 6:
        return domain(src)
    if k < 8:
        return ipv4ish(src)
    if k < 10:
        s = ipv6ish(src)
        w = src.draw(12)
        if w == 10:
            return "[" + s
        if w == 11:
            return src.choice([s + "]", "[[" + s + "]]", "a[" + s + "]", "[" + s + "]a"])
        return "[" + s + "]"
    if k == 10:
        return src.choice(
            ["", "localhost", "LocalHost", "loc%61lhost", "C:", "C|", "c|", "ｌocalhost",
             "%00", "%25", "%2F", "%ff", "a b", "a%20b", "a<b", "a^b", "a|b", "*", "a%",
             "e:", "E|", "%2561", "a%252e", "%2525"]
        )
    return text(src, 4, 20)


def good_host(src):
    """a host acceptable for special URLs"""
    k = src.draw(8)
    if k < 5:
        return plain_domain(src)
    if k == 5:
        return ".".join(str(src.between(0, 255)) for _ in range(4))
    if k == 6:
        p = ipv6_valid_pieces(src)
        return "[" + ":".join("%x" % x for x in p) + "]"
    return src.choice(["bücher.de", "日本語", "EXAMPLE.com", "a_b", "xn--zca.x", "1.a", "a-.b"])


def port(src):
    k = src.draw(14)
    if k < 3:
        return src.choice(["80", "443", "21", "8080", "0"])
    if k < 6:
        return str(src.draw(65537))
    if k == 6:
        return src.choice(["65535", "65536", "65537", "99999", "100000", "655360", "70000"])
    if k == 7:
        return "0" * src.between(1, 8) + src.choice(["", "80", "443", "65535", "65536", "1"])
    if k == 8:
        return src.choice(
            ["", "a", "8a", "+80", "-1", " 80", "80 ", "8_0", "\u0661", "８０", "0x50", "1e3", "8\t0",
             "80:", "%38", "8.0", "²"]
        )
    if k == 9:
        return str(dict_int(src))
    if k == 10 and src.chance(1, 4):
        return "0" * src.choice([4299, 4300, 4301, 5000]) + src.choice(["", "8080", "80"])
    if k == 11 and src.chance(1, 4):
        return src.choice("123456789") * src.choice([20, 4299, 4300, 4301, 6000])
    return src.choice(["80", "443", "21", "1234", "65535", "0", "00", "22", "3000"])


def userinfo(src):
    k = src.draw(6)
    if k < 3:
        return ""
    if k == 3:
        return src.choice(["u@", "u:p@", ":p@", ":@", "@", "u:@", "u:p:q@", "u@v@", "a%40b:c@"])
    s = text(src, 2, 8)
    if src.chance(1, 2):
        s += ":" + text(src, 2, 8)
    return s + "@"


# -------------------------------------------------------------------- paths


def segment(src):
    k = src.draw(14)
    if k < 4:
        return word(src, 2, 8)
    if k < 7:
        return src.choice(
            [".", "..", "%2e", "%2E", ".%2e", "%2e.", "%2E%2e", "%2e%2E", "...", ".%2E", "%2E.", "%2e%2e"]
        )
    if k == 7:
        return src.choice(["C:", "C|", "c:", "c|", "C%3A", "C%7C", "1:", "CC:", "C:x", "|:", "C", ":", "Z|", "e:", "E|"])
    if k == 8:
        return ""
    if k == 9:
        return src.choice([";", "a;b", ";p=1;q", "a=b", "%", "%zz", "%41", "a b", "~", "^", "a%2Fb", "`{}"])
    return text(src, 3, 12)


def path(src, absolute=True):
    n = length(src, 3, 8)
    s = "/" if absolute else ""
    segs = []
    for i in range(n):
        segs.append(segment(src))
        if i < n - 1 or src.chance(1, 3):
            segs.append("\\" if src.chance(1, 10) else "/")
    return s + "".join(segs)


def query(src):
    k = src.draw(6)
    if k == 0:
        return ""
    if k < 3:
        return urlencoded(src)
    return text(src, 5, 30)


def urlencoded(src):
    n = length(src, 3, 6, 150)
    parts = []
    for _ in range(n):
        m = src.draw(6)
        name = form_piece(src)
        if m == 0:
            parts.append(name)
        elif m == 1:
            parts.append("")
        else:
            parts.append(name + "=" + form_piece(src))
    return "&".join(parts)


def form_piece(src):
    k = src.draw(8)
    if k < 3:
        return src.choice(["a", "b", "c", "A", "", "a+b", "x", "aa"])
    if k < 5:
        return word(src, 3, 8)
    if k == 5:
        return src.choice(
            ["%", "%4", "%41", "%zz", "%00", "%ff", "%c3%28", "%e2%82", "+", "%2B", "%20", "=", "==",
             "?", "?a", "%26", "%3D", "~", "!'()*-._", "\ufeff", "%ef%bb%bf", "é", "\U0001f308",
             "ﬃ", "%F0%9F%8C%88", "%ED%A0%80", "%C0%80", "%f4%90%80%80"]
        )
    return text(src, 3, 10)


def fragment(src):
    return text(src, 3, 20)


def slashes(src, n):
    return "".join("\\" if src.chance(1, 6) else "/" for _ in range(n))


def scheme(src):
    k = src.draw(10)
    if k < 5:
        return case_mix(src, src.choice(SPECIAL))
    if k < 8:
        return case_mix(src, src.choice(NONSPECIAL))
    if k == 8:
        s = src.choice(LETTERS) + "".join(
            src.choice(ALNUM + "+-.") for _ in range(src.size(3, 8))
        )
        return s
    return src.choice(["", "1a", "a b", "é", "a_b", "+a", "http ", "ht\ttp", "HTTPS", "fIle"]) if src.chance(1, 2) else dict_str(src)


def junk(src, s):
    """leading/trailing controls, embedded tabs and newlines, point mutations"""
    if NEW_STRS and src.chance(1, 8):
        i = src.draw(len(s) + 1)
        s = s[:i] + src.choice(NEW_STRS) + s[i:]
    k = src.draw(20)
    if k == 19:
        s = src.choice(["\x00", " ", "\x1f", "\n", "\t ", "\x0b", "\xa0", "\x85", "\u3000", "\x7f"]) + s
    elif k == 18:
        s = s + src.choice(["\x00", " ", "\x1f", "\n", "\t ", "\x0b", "\xa0", "\x85", "\u3000", "\x1c"])
    elif k == 17:
        for _ in range(1 + src.draw(3)):
            i = src.draw(len(s) + 1)
            s = s[:i] + src.choice("\t\n\r") + s[i:]
    elif k == 16:
        i = src.draw(len(s) + 1)
        s = s[:i] + char(src) + s[i:]
    elif k == 15 and s:
        i = src.draw(len(s))
        s = s[:i] + s[i + 1 :]
    elif k == 14 and s:
        i = src.draw(len(s))
        s = s[:i] + char(src) + s[i + 1 :]
    return s


def blob_url(src):
    return "blob:" + src.choice(["", "", " ", "/", "//h/", "blob:"]) + absolute_url(src, blob=False)


def absolute_url(src, blob=True):
    if blob and src.chance(1, 25):
        return blob_url(src)
    sch = scheme(src)
    special = sch.lower() in SPECIAL
    k = src.draw(12)
    if k < 8:
        n = 2 if src.chance(7, 8) else src.draw(5)
        s = sch + ":" + slashes(src, n) if src.chance(1, 6) else sch + ":" + "/" * n
        s += userinfo(src) + host(src)
        if src.chance(1, 4):
            s += ":" + port(src)
        if src.chance(4, 5):
            s += path(src)
    elif k < 10:
        s = sch + ":" + path(src, src.chance(1, 2))
    elif k == 10:
        s = sch + ":" + text(src, 5, 20) + src.choice(["", " ", "  ", " \x01"])
    else:
        s = "file:" + "/" * src.draw(5) + src.choice(["", "C:", "C|", "h", "localhost", "[::1]", "c|x"])
        s += path(src)
    if src.chance(1, 3):
        s += "?" + query(src)
    if src.chance(1, 3):
        s += "#" + fragment(src)
    return s


def relative_ref(src):
    if src.chance(1, 4):
        return small_ref(src)
    k = src.draw(12)
    if k == 0:
        s = ""
    elif k < 3:
        s = path(src, False)
    elif k < 5:
        s = path(src)
    elif k == 5:
        s = slashes(src, 2) + userinfo(src) + host(src) + (":" + port(src) if src.chance(1, 4) else "") + path(src)
    elif k == 6:
        s = src.choice(SPECIAL) + ":" + path(src, src.chance(1, 2))
    elif k == 7:
        s = src.choice(["C:", "C|", "/C:", "/C|", "//C:", "//C|", "c|", "C:a", "/C|a", "\\C|"]) + (
            path(src) if src.chance(1, 2) else ""
        )
    elif k == 8:
        return "?" + query(src)
    elif k == 9:
        return "#" + fragment(src)
    else:
        s = slashes(src, src.draw(5)) + path(src, False)
    if src.chance(1, 3):
        s += "?" + query(src)
    if src.chance(1, 3):
        s += "#" + fragment(src)
    return s


def soup(src):
    n = src.size(6, 20)
    out = []
    for _ in range(n):
        k = src.draw(8)
        if k < 3:
            out.append(src.choice(["/", "//", "\\", ":", "://", "@", "?", "#", "[", "]", ".", "..", "%2e", "|", "C:", "C|"]))
        elif k == 3:
            out.append(src.choice(SPECIAL + NONSPECIAL))
        elif k == 4:
            out.append(word(src, 2, 5))
        elif k == 5:
            out.append(dict_str(src))
        else:
            out.append(char(src))
    return "".join(out)


def url_string(src):
    k = src.draw(16)
    if k < 8:
        s = absolute_url(src)
    elif k < 11:
        s = relative_ref(src)
    elif k < 13:
        s = src.choice(SEEDS["urls"])[0]
        for _ in range(src.draw(3)):
            s = junk(src, s) if src.chance(1, 2) else mutate_str(src, s)
    elif k == 13:
        s = soup(src)
    elif k == 14:
        s = good_url(src)
    else:
        s = text(src, 6, 30)
    return junk(src, s)


def mutate_str(src, s):
    i = src.draw(len(s) + 1)
    j = min(len(s), i + src.draw(4))
    return s[:i] + (char(src) if src.chance(2, 3) else dict_str(src)) + s[j:]


# ------------------------------------------------------------- small scope
# Tiny alphabets, so that rare combinations of the things that matter meet.

S_SCHEME = ["http", "file", "foo", "https", "ws", "blob"]
S_HOST = ["h", "", "C:", "C|", "localhost", "1.2", "[::1]", "0", "x.y", "LOCALHOST", "h%41"]
S_TOK = ["/", "/", "/", "a", "..", ".", "C|", "C:", "\\", "%2e", ";", "b", " ", "?", "#", ":", "@", "%41", "|"]
S_SEG = ["a", "", "..", ".", "C|", "C:", "%2e", "%2E.", "d", "a;b", "c|x"]


def small_path(src, absolute=True):
    n = src.size(2, 4)
    segs = [src.choice(S_SEG) for _ in range(n)]
    sep = "\\" if src.chance(1, 10) else "/"
    return ("/" if absolute else "") + sep.join(segs)


def small_tail(src):
    return src.choice(["", "", "", "?", "?q", "?a=1", "?a=1&b"]) + src.choice(["", "", "", "#", "#f", "# "])


def small_good(src):
    k = src.draw(10)
    if k < 4:
        s = src.choice(["http", "https", "ws"]) + "://" + src.choice(["", "", "", "u@", "u:p@", ":p@"]) + src.choice(
            ["h", "1.2.3.4", "[::1]", "x.y", "localhost"]
        ) + src.choice(["", "", ":80", ":443", ":0", ":8"])
        s += small_path(src)
    elif k < 7:
        s = "file:" + src.choice(["//", "///", "//h/", "/", "", "//localhost/"]) + small_path(src, False)
    elif k < 9:
        s = "foo:" + src.choice(["//h", "//h:1", "//u@h", "//u:p@h:0", "//", "/.", "", "//h:80", "//H%41"]) + (
            src.choice(["", small_path(src)])
        )
    else:
        s = src.choice(["data", "foo", "blob"]) + ":" + src.choice(["", "x", "x ", "  ", "x  ", "http://h:1/"])
    return s + small_tail(src)


def small_ref(src):
    k = src.draw(4)
    if k == 0:
        return "".join(src.choice(S_TOK) for _ in range(src.size(3, 6)))
    if k == 1:
        return src.choice(["", "/", "//", "///", "\\", "/\\"]) + src.choice(S_HOST) + small_path(src) + small_tail(src)
    if k == 2:
        return src.choice(["", "/", "./", "../"]) + small_path(src, False) + small_tail(src)
    return src.choice(S_SCHEME) + ":" + src.choice(["", "/", "//", "///", "\\"]) + src.choice(
        [small_path(src, False), src.choice(S_HOST) + small_path(src)]
    ) + small_tail(src)


def small_setter(src, attr):
    if attr == "href":
        return small_good(src)
    if attr == "protocol":
        return src.choice(["file", "http", "https", "ws", "foo", "bar", "FILE", "ftp", "wss", "http:x", "1"])
    if attr in ("username", "password"):
        return src.choice(["", "u", "p:q", "a@b", "%41", "/"])
    if attr in ("host", "hostname"):
        return src.choice(S_HOST + ["h:80", "h:443", "h:0", "h:", "h:8/x", "C:/", "C|", "h/p", "h?q", "h#f", "h\\p", "u@h", ":80", "1.2:8", "[::1]:0", "localhost:1"])
    if attr == "port":
        return src.choice(["", "0", "80", "443", "21", "8080", "080", "65535", "65536", "8x", "x", "8/", " 8", "0x8"])
    if attr == "pathname":
        return src.choice(["", "", small_path(src), small_path(src, False), "?", "#", "\\", "/C|", "C|/..", "//p", "/.//p"])
    if attr == "search":
        return src.choice(["", "?", "a=1", "?a=1&b=2", "??", "#", "a b", "'"])
    return src.choice(["", "#", "f", "#f", "##", " ", "`"])


def small_history(src, n):
    ops = []
    for _ in range(n):
        a = src.choice(SETTERS)
        ops.append([a, small_setter(src, a)])
    return ops


DRIVE_SEG = ["C|", "C:", "a", "..", "", "c|d", "%2e%2e"]


def drive_path(src):
    return "/".join(src.choice(DRIVE_SEG) for _ in range(1 + src.size(1, 3)))


def drive_case(src):
    """drive letters, dot segments and changes of scheme or host, close together"""
    u = src.choice(["http://h/", "file:///", "file://h/", "file:", "foo://h/", "foo:/"]) + drive_path(src)
    ops = []
    for _ in range(src.size(1, 3)):
        a = src.choice(["protocol", "pathname", "host", "hostname"])
        if a == "protocol":
            v = src.choice(["file", "http"])
        elif a == "pathname":
            v = src.choice(["", "/"]) + drive_path(src)
        else:
            v = src.choice(["", "h", "C:", "C|", "localhost"])
        ops.append([a, v])
    r = src.choice(["..", "../..", ".", "", "/", "/..", "/.", "//", "//h/..", "file:", "file:..", "?q", "//C:", "///"])
    if src.chance(1, 3):
        r = src.choice(["", "/", "//", "///", "\\", "file:", "file:/", "../", "/../"]) + drive_path(src)
    return u, ops, r


def good_url(src):
    """a string that parses (base URLs, starting points of histories)"""
    if src.chance(1, 4):
        return small_good(src)
    k = src.draw(16)
    if k < 8:
        sch = src.choice(["http", "https", "ws", "wss", "ftp"])
        s = sch + "://"
        if src.chance(1, 4):
            s += src.choice(["u@", "u:p@", ":p@", "a%20b:c@"])
        s += good_host(src)
        if src.chance(1, 3):
            s += ":" + src.choice(["80", "443", "21", "8080", "0", "65535", "1"])
        s += path(src) if src.chance(3, 4) else ""
    elif k < 11:
        s = "file://" + src.choice(["", "", "", "h", "1.2.3.4", "localhost"]) + src.choice(
            ["", "/", "/C:", "/C|/x", "/C:/a/b", "/c:/"]
        ) + (path(src) if src.chance(1, 2) else "")
    elif k < 13:
        s = src.choice(["foo", "web+demo", "a", "ssh"]) + "://"
        if src.chance(1, 4):
            s += src.choice(["u@", "u:p@", ":p@"])
            s += plain_domain(src)
        else:
            s += src.choice(["", "h", "H.x", "[::1]", "a%20b", "é"])
        if not s.endswith("//") and src.chance(1, 3):
            s += ":" + src.choice(["80", "443", "0", "1", "65535"])
        if src.chance(3, 4):
            s += path(src)
    elif k == 13:
        s = src.choice(["foo", "web+demo"]) + ":" + src.choice(["/", "/a", "/.//p", "/a/../..//b", "/"]) + (
            word(src, 2, 6)
        )
    elif k == 14:
        s = src.choice(["data", "mailto", "about", "javascript", "foo", "blob"]) + ":" + src.choice(
            ["", "blank", "x y", "a@b", "space ", "sp   ", "a/b;c", "http://h:81/x", "é"]
        ) + (src.choice(["", " ", "  "]) if src.chance(1, 2) else "")
    else:
        s = src.choice(SEEDS["urls"])[1] or "http://example.org/foo/bar"
    if src.chance(1, 2):
        s += "?" + query(src)
    if src.chance(1, 2):
        s += "#" + fragment(src)
    return s


def base(src):
    if src.chance(1, 10):
        return url_string(src)
    return good_url(src)


def url_and_base(src):
    k = src.draw(10)
    if k < 4:
        return url_string(src), None
    if k < 9:
        b = base(src)
        u = relative_ref(src) if src.chance(1, 2) else url_string(src)
        if src.chance(1, 8):
            # same-scheme relative
            i = b.find(":")
            u = b[: i + 1] + relative_ref(src)
        return junk(src, u), b
    u, b = src.choice(SEEDS["urls"])
    if src.chance(1, 2):
        u = mutate_str(src, u)
    return u, b


SETTERS = [
    "href",
    "protocol",
    "username",
    "password",
    "host",
    "hostname",
    "port",
    "pathname",
    "search",
    "hash",
]


def setter_value(src, attr):
    if src.chance(1, 3):
        return small_setter(src, attr)
    if src.chance(1, 12):
        return junk(src, text(src, 5, 20))
    if src.chance(1, 14):
        return ""
    if attr == "href":
        s = good_url(src) if src.chance(2, 3) else url_string(src)
    elif attr == "protocol":
        s = scheme(src) if src.chance(1, 2) else src.choice(SPECIAL + ["foo", "bar"])
        if src.chance(1, 4):
            s += src.choice([":", "://", ":x", "/", ":80", " ", "\n"])
    elif attr in ("username", "password"):
        s = text(src, 3, 12)
    elif attr in ("host", "hostname"):
        s = host(src) if src.chance(2, 3) else good_host(src)
        if src.chance(1, 3):
            s += ":" + port(src)
        if src.chance(1, 6):
            s += src.choice(["/", "?", "#", "\\", "@", "/x:1", "?a", "#b", "\\c"])
        if src.chance(1, 12):
            s = src.choice([":", ":80", "/", "u@", "//"]) + s
    elif attr == "port":
        s = port(src)
        if src.chance(1, 4):
            s += src.choice(["/", "?", "#", "\\", "x", " ", ":"])
    elif attr == "pathname":
        s = path(src, src.chance(2, 3))
        if src.chance(1, 6):
            s += src.choice(["?", "#", "?x", "#y"])
    elif attr == "search":
        s = src.choice(["", "?", "??"]) + query(src)
    else:
        s = src.choice(["", "#", "##"]) + fragment(src)
    return junk(src, s)
