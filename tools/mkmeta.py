"""Writes properties.jsonl and MANIFEST.json (run by hand after editing)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
F = ["src/urlstd/parse.py"]
SP = "the URL Standard (snapshot fff33c3, July 2023)"
I, H, C, S = "inputs", "histories", "configurations", "schedules"
PROPS = [
("C01", "Parsing follows the URL Standard for every input and base",
 "For every string and every optional base URL, parsing either fails or yields exactly the scheme, username, password, host, port, path, query and fragment that "+SP+" prescribes, and it fails exactly when the Standard's algorithm does. The serialization, with and without the fragment, is the Standard's.",
 [I], "every str input (including controls, surrogates, very long runs) and every base string",
 "The tests replay the fixed WPT list; every state, delimiter, scheme class and base kind combination outside it is unsettled (several such inputs were wrong, see known_findings.txt).",
 [("basic URL parser state machine", "BasicURLParser.parse and its _parse_* states"), ("URL serializer", "URLRecord.serialize_url")],
 ["parse_url(), URLRecord fields, href"]),
("C02", "Property assignments follow the Standard after any history",
 "Assigning href, protocol, username, password, host, hostname, port, pathname, search or hash, any number of times and in any order, leaves the URL in exactly the state the Standard's setter algorithms prescribe. URLParseError is raised exactly when the underlying algorithm returns failure, and then the URL is as the Standard leaves it.",
 [H, I], "every starting URL and every finite sequence of assignments of arbitrary strings",
 "Tests assign once to a fresh URL from a list; sequences, where one assignment sets up the state that another mishandles, are not sampled.",
 [("URL property setters", "URL.*.setter"), ("state overrides", "BasicURLParser.parse(url=, state_override=)")],
 ["all URL properties and search_params after each assignment"]),
("C03", "URLSearchParams is an ordered multimap of strings under any history",
 "After any sequence of append, delete, set, sort, copy and lookups with string, int or float values, the parameters are exactly the ordered list of name-value string pairs the Standard prescribes: duplicates kept in order, set replacing the first and dropping the rest, delete/has with a value matching pairs, sort stable and by UTF-16 code units. Names and values are stored as given (converted to scalar value strings, never decoded), and get, get_all, has, in, indexing, slicing, iteration, len and str all agree with that list.",
 [H, I], "every initializer (string, pairs, dict, another object, none) and every finite sequence of operations",
 "Tests run short scripted sequences with plain names; interplay of duplicates, percent signs, numeric values and surrogates over histories is open.",
 [("parameter list operations", "URLSearchParams.*")], ["list(params), return values, str(params)"]),
("C04", "A URL and its search_params stay two views of one query",
 "At every moment of any history that mixes changes through url.search_params with assignments to the URL, the parameter list equals what the URL's query parses to, and after a change through the parameters the URL's query is their serialization (or absent when empty). All handles to search_params see the same list, detached copies never affect the URL, and trailing spaces of an opaque path are dropped only when query and fragment are both gone.",
 [H], "every URL and every interleaving of parameter operations and property assignments",
 "Tests change one side and look at the other once; stale links only show after alternating changes or re-assignment of href.",
 [("attachment of parameters to the record", "URLSearchParams.attach/_update, URL.search/href setters")], ["href, search, list(search_params)"]),
("C05", "Serialization is lossless and a fixed point of parsing",
 "The serialization of every URL that parsing or assignments can produce is printable ASCII, parses again (alone or against any base), and gives back the same components and the same string.",
 [I, H], "every accepted (input, base), and every assignment history not switching the scheme to file",
 "Idempotence is a relation between two runs that the table-driven tests never make beyond their own rows.",
 [("URL serializer and parser", "URLRecord.serialize_url, BasicURLParser.parse")], ["href of a re-parsed href"]),
("C06", "Hosts ending in a number are IPv4 addresses, exactly",
 "A host of a special URL whose last label is a number (decimal, octal or hexadecimal) is either the 32-bit address its parts denote, for any number of parts, radix, padding or length of digits, or rejected with IPv4AddressParseError; only ASCII digits of the radix count as digits. The address serializes to canonical dotted decimal, and hosts of non-special URLs are never interpreted.",
 [I], "every string taken as the host of a special or non-special URL",
 "Tests list some dozens of addresses; radix/part-count/boundary combinations and non-ASCII digits are not covered.",
 [("IPv4 parser and serializer", "IPv4Address"), ("host parser", "Host.parse")], ["Host.parse, Host.serialize, URL host"]),
("C07", "Bracketed hosts are IPv6 addresses, exactly",
 "A bracketed host is accepted exactly when its content is an IPv6 address in the Standard's syntax (any place of compression, zero padding, embedded IPv4 only at the end) and then denotes those eight 16-bit pieces; otherwise it is rejected with IPv6AddressParseError. Serialization is the Standard's compressed lower-case form and parses back to the same pieces.",
 [I], "every string inside brackets, for special and non-special URLs",
 "The space of piece counts, compression positions, embedded IPv4 and misplaced colons is far larger than the listed test rows.",
 [("IPv6 parser and serializer", "IPv6Address"), ("host parser", "Host.parse")], ["Host.parse, Host.serialize, URL host"]),
("C08", "Domains are processed by UTS #46 as the Standard prescribes",
 "Every domain of a special URL, and every call of domain-to-ASCII and domain-to-Unicode in strict or lenient mode in any order, yields what UTS #46 with the Standard's parameters yields, or the documented error; a parsed domain is lower-case ASCII without forbidden code points. Spellings differing only in ASCII case, percent-encoding or full-stop variant give the same host, and a parsed domain parses to itself.",
 [I, H], "every string as a domain; every sequence of strict and lenient conversions",
 "Unicode has a million code points and contextual rules; tests sample a few hundred domains, each converted once.",
 [("domain conversions", "IDNA.domain_to_ascii/domain_to_unicode"), ("host parser", "Host.parse")], ["Host.parse, IDNA.*"]),
("C09", "Percent-encoding is exact and loses nothing",
 "Percent-encoding a string with any set of safe ASCII characters, any encoding and either treatment of spaces escapes exactly the bytes outside the safe set as upper-case %XX, with unencodable characters as escaped decimal character references and unpaired surrogates as U+FFFD. Percent-decoding replaces exactly the well-formed escapes, and inverts the UTF-8 encoding whenever '%' itself is escaped.",
 [I], "every string, safe set, encoding and byte sequence",
 "Tests hold a few examples per function; byte values, stateful encodings and surrogates combine freely.",
 [("percent codec", "string_percent_encode, string_percent_decode, utf8_encode, utf8_decode, utf8_percent_encode")], ["return values"]),
("C10", "The form codec is lossless on every list of pairs",
 "Serializing any list of name-value pairs as application/x-www-form-urlencoded gives the Standard's string over its fixed ASCII alphabet, and parsing that string gives back the same list of scalar value strings. Parsing any byte sequence gives exactly the Standard's list of pairs.",
 [I], "every list of pairs, every encoding, every byte sequence",
 "Round trips over arbitrary text (empty names, '=', '+', invalid UTF-8, '~') are not enumerated by the tests.",
 [("form codec", "urlencode, parse_qsl")], ["return values"]),
("C11", "Hostile text fails cleanly at every entry point",
 "For every string, each public function or method taking text either returns a value of its documented type or raises URLParseError (or a subclass); can_parse and all validators always return a bool, agreeing with whether parsing succeeds. A rejected assignment to href leaves the URL unchanged, and after any rejected assignment the URL is still fully readable.",
 [I], "every str, of any length and content, as URL, base, host, domain, scheme, property value, query",
 "Tests contain no very long digit runs, lone surrogates or nested blob URLs, which is where foreign exceptions escaped.",
 [("error translation", "urlstd.error and every raise in parse.py")], ["exception types, return types"]),
("C12", "All entry points and views agree about a URL",
 "URL(), parse_url(), the basic parser and can_parse() give the same verdict and the same URL for an input, however the base is passed (string, URL object, URL record). Every URL property, str(), repr() and query view is the documented function of the record's components, and assigning a property has the same effect as the documented state-override call on the record.",
 [I], "every (input, base, property, value)",
 "Tests exercise each entry point on its own examples and never compare them on the same input.",
 [("wrappers around the basic parser", "URL, parse_url, BasicURLParser.parse, URLSearchParams(URLRecord)")], ["public API"]),
("C13", "No hidden sharing and no memory between calls",
 "Parsing never modifies the base, the containers passed in or any other existing object; URLs resolved from one base, the base itself and copies change independently whatever is done to one of them. The result of a call depends only on its arguments, never on calls made before.",
 [H], "every base, set of references, and order of changes and calls",
 "Aliasing shows only when an object is changed after another was derived from it, a history the tests never build.",
 [("copying of the base's components", "_parse_relative, _parse_file, _parse_no_scheme ..."), ("ICU instance cache", "IDNA._create_instance")], ["all objects after each change"]),
("C14", "Validation reports exactly the Standard's validation errors",
 "URLs are reported as having validation errors exactly when the Standard's parser reports one, with the Standard's error types in order (newest first in the validity object); is_valid holds exactly when there is none and the scheme is in the IANA registry, compared ignoring ASCII case only. The validity object is always consistent (valid flag, count, types and descriptions), and reusing it gives the same as a fresh one.",
 [I, H], "every (input, base) and every sequence of validations with one validity object",
 "Tests check a list of single inputs, mostly with one error each.",
 [("validation error reporting", "log calls with validity= throughout the parser"), ("state reset", "ValidityState.reset"), ("registry check", "URLValidator.is_valid_url_scheme")], ["URL.can_parse(validity=), URLValidator"]),
("C15", "Host validators accept exactly the valid host strings",
 "The validators for hosts, domains, IPv4 addresses, IPv6 addresses and opaque hosts return True exactly for the Standard's valid strings of that kind (four shortest-form decimal parts for IPv4, strict UTS #46 for domains, URL units without forbidden code points for opaque hosts). A validity object passed in, fresh or reused, reflects exactly the last call.",
 [I, H], "every string and every order of validator calls on one validity object",
 "Tests sample each validator with a handful of strings and a fresh object.",
 [("validators", "HostValidator")], ["HostValidator.*, ValidityState"]),
("C16", "Origins are the Standard's and same-origin is an equivalence",
 "The origin of every URL is the Standard's (a scheme/host/port tuple for network schemes, that of the inner URL for blob, opaque otherwise), serializes as the Standard says, and is unaffected by credentials, path, query and fragment. Same-origin and same-origin-domain hold exactly by definition, hence are reflexive, symmetric and transitive.",
 [I], "every URL, and every pair and triple of origins with any document domains",
 "The relation must hold over all pairs; tests compare a few.",
 [("origin", "URLRecord.origin, URL.origin, Origin")], ["origin properties, Origin methods"]),
("C17", "URL equality matches what URLs denote",
 "Two URLs are equal exactly when all their components are, whatever spelling or route produced them; excluding fragments exactly the fragment stops mattering. Equality is reflexive, symmetric, transitive, consistent with !=, and false against anything that is not a URL of the same kind.",
 [I], "every pair and triple of URLs",
 "Equality is relational over all pairs of spellings; the tests fix a few pairs.",
 [("equality", "URL.__eq__/equals, URLRecord.__eq__/equals")], ["==, !=, equals()"]),
("C18", "urlparse() returns the parsed URL's components, losing nothing",
 "For every input, base, encoding and fragment setting, urlparse() fails exactly when parsing does and otherwise returns the scheme, the netloc with credentials and non-default port, the path and parameters split at the first ';', the query and the fragment of the parsed URL. With fragments disallowed the fragment is folded, with its '#', into the last non-empty of path, parameters and query, so that the fields still rebuild the URL.",
 [I, C], "every (input, base, encoding, allow_fragments)",
 "Tests call it on few URLs; the folding and splitting cases multiply with empty components.",
 [("urllib-compatible result", "urlparse")], ["ParseResult fields"]),
("C19", "An assignment touches its own component and nothing else",
 "Assigning a property changes at most that component (and what is derived from it: href, host/port, origin); all other properties read as before, even when the value contains delimiters of other components. Assigning the same value again, or a property's own value, changes nothing.",
 [H, I], "every URL, property and value, after any history of assignments",
 "Tests check the expected result for listed values; leakage needs a delimiter in one component and content in another.",
 [("property setters with state override", "URL.*.setter, BasicURLParser")], ["all properties before and after"]),
("C20", "An encoding override affects only queries of special URLs",
 "Parsing with a legacy encoding gives the same URL as with UTF-8 except for the query, and the same query too for non-special, ws and wss URLs, for UTF-16 labels and for ASCII text. Elsewhere the query holds the percent-encoded bytes of the text in that encoding, with unencodable characters as escaped decimal character references.",
 [I, C], "every (input, base, encoding label in any letter case)",
 "Tests use a few encodings on a few queries; stateful and multi-byte encodings with unencodable characters are not covered.",
 [("query state with encoding", "_parse_query, string_percent_encode")], ["URLRecord.query, urlparse().query"]),
("C21", "Every reachable URL is well-formed",
 "Whatever inputs, bases, assignments and parameter changes led to it, a URL has a syntactically valid lower-case scheme, a host if special (non-empty unless file), no credentials or port where none are allowed, no default port, no dot segments, and every component free of the characters that must be percent-encoded in it.",
 [H, I], "every URL reachable by parsing and any history of assignments and parameter changes",
 "An invariant over all reachable states; tests look at single results.",
 [("percent-encode sets", "SAFE_*_PERCENT_ENCODE_SET"), ("setter guards", "cannot_have_username_password_port, has_opaque_path")], ["URL properties"]),
("C22", "Resolving references obeys its algebraic laws",
 "An absolute URL resolves to itself against any base; '' gives the base without its fragment, '#f' and '?q' replace only their part, and a base's query and fragment never influence other references. Equivalent relative paths (dot segments, escaped dots, one step or two) resolve alike, and surrounding whitespace, embedded tabs and newlines, scheme case and, for special URLs, backslashes make no difference.",
 [I], "every base, every reference, every equivalent rewriting",
 "These are relations between several resolutions; tests check single rows.",
 [("relative states", "_parse_relative, _parse_relative_slash, _parse_file, _parse_path")], ["href of resolved URLs"]),
("C23", "Logging reports validation errors and never changes a result",
 "Results are the same under every logging configuration (level, handlers, logger class, logging disabled), and every log message formats without error. The messages logged at INFO and above while parsing are exactly the validation errors, all under the urlstd loggers; a validity object that disables logging silences them, one that enables it does not.",
 [C, I], "every logging configuration and every input",
 "Tests run under one logging configuration.",
 [("logger adapter", "_Logger, get_logger"), ("validity= plumbing", "kwargs through the parser")], ["log records, results"]),
("C24", "Concurrent calls give the same results as sequential ones",
 "Threads that use their own objects get, under every interleaving of the library's statements, exactly the results they would get running alone.",
 [S, I], "every set of threads, calls and interleavings at statement granularity",
 "Tests are single-threaded.",
 [("class-level caches and constants only", "IDNA._cache, module constants")], ["results per thread"]),
("C25", "Validation messages point at what they complain about",
 "Every validation message that gives a position quotes the text that was parsed (trimmed, without tabs and newlines), and what stands at that position is what the message names and an instance of the error it reports: a code point that is not a URL unit, a malformed escape, a backslash, an at sign, a drive letter, a missing or superfluous slash. No place is reported twice, places come in parsing order, and the exception raised says the same as the newest message.",
 [I], "every input, base and override value",
 "Tests compare a few literal messages.",
 [("position arithmetic in every parser state", "BasicURLParser._parse_*"), ("message collection", "_Logger, ValidityState")], ["descriptions of the validity object, str() of the exception"]),
]
TECH = {
 "C01": "grammar-based differential fuzzing against a reference model",
 "C02": "stateful model-based testing of setter histories",
 "C03": "stateful model-based testing against a list model",
 "C04": "stateful model-based testing of interleaved views",
 "C05": "round-trip property-based testing",
 "C06": "property-based testing against a model and a constructive generator",
 "C07": "property-based testing against a model, ipaddress and a constructive generator",
 "C08": "differential fuzzing against ICU plus metamorphic relations",
 "C09": "property-based testing against a model, round trip",
 "C10": "property-based testing against a model, round trip",
 "C11": "robustness fuzzing of all entry points",
 "C12": "differential property-based testing between entry points",
 "C13": "stateful aliasing and history-independence testing",
 "C14": "differential fuzzing of validation errors against a model",
 "C15": "differential fuzzing against independent definitions",
 "C16": "property-based testing against a model, relation laws",
 "C17": "property-based testing of relation laws on respelled URLs",
 "C18": "differential property-based testing against a model",
 "C19": "stateful before/after (frame) testing",
 "C20": "differential and metamorphic property-based testing over encodings",
 "C21": "stateful invariant testing over reachable URLs",
 "C22": "metamorphic property-based testing",
 "C23": "configuration fuzzing with log capture",
 "C24": "generated schedules on a deterministic thread scheduler",
 "C25": "property-based testing of an invariant between message and input",
}
MODEL = {"C01","C02","C04","C06","C07","C12","C14","C15","C16","C17","C18","C20","C25"}
with open(V + "/properties.jsonl", "w") as f:
    for id, title, st, over, q, why, mech, obs in PROPS:
        assert len(title) <= 80, id
        files = ["src/urlstd/parse.py"] + (["src/urlstd/error.py"] if id == "C11" else []) 
        f.write(json.dumps({"id": id, "title": title, "statement": st,
            "quantifier": {"over": over, "text": q}, "why_tests_cant": why,
            "anchors": {"files": files, "mechanism": [{"name": n, "where": "src/urlstd/parse.py: " + w} for n, w in mech],
                        "observe_at": obs, "hook_needed": None}}, ensure_ascii=False) + "\n")
checks = []
for id, *_ in PROPS:
    note = "Search, not proof: holds on every generated case (seeded, counts in the evidence file)."
    if id in MODEL:
        note += " Trusts harness/refurl.py as a reading of the Standard and ICU for UTS #46."
    elif id == "C08":
        note += " Trusts ICU for UTS #46."
    elif id == "C24":
        note += " Switches only at line boundaries of the library's Python source."
    checks.append({"property": id, "quick_cmd": f"./run {id} --tier quick", "thorough_cmd": f"./run {id} --tier thorough",
        "evidence_file": f"evidence/{id}.json", "technique": TECH[id], "level": "exploration", "level_note": note})
with open(V + "/MANIFEST.json", "w") as f:
    json.dump({"version": 1, "setup_cmd": "/opt/venv/bin/python -B -c 'import icupy.icu'", "checks": checks, "not_applicable": [],
      "notes": "Checks import the code from /repo/src directly (pure Python); no hooks are needed."}, f, indent=1)
    f.write("\n")
