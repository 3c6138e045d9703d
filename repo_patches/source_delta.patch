From 0eb4c80ff9367ccc4b84a9bd568b1fa0dba233b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:39 +0000
Subject: [PATCH 01/20] fix: accept only ASCII digits of the radix in IPv4
 numbers

---
 src/urlstd/parse.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/urlstd/parse.py b/src/urlstd/parse.py
index f15a6df..7216a21 100644
--- a/src/urlstd/parse.py
+++ b/src/urlstd/parse.py
@@ -1186,6 +1186,9 @@ class IPv4Address:
         if len(address) == 0:
             return 0, True
 
+        digits = {8: string.octdigits, 10: ASCII_DIGITS, 16: ASCII_HEX_DIGITS}
+        if any(c not in digits[r] for c in address):
+            return -1, True
         try:
             return int(address, r), validation_error
         except ValueError:
-- 
2.43.0


From b97a59900180197d11245b3ae52fe3edb4ee3ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:41:12 +0000
Subject: [PATCH 02/20] fix: reject IPv4 addresses with any non-last part above
 255

---
 src/urlstd/parse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/urlstd/parse.py b/src/urlstd/parse.py
index 7216a21..ad265ae 100644
--- a/src/urlstd/parse.py
+++ b/src/urlstd/parse.py
@@ -1268,7 +1268,7 @@ class IPv4Address:
                 numbers,
                 **kwargs,
             )
-        if any(x > 255 for x in numbers[:-1]) and numbers[-1] <= 255:
+        if any(x > 255 for x in numbers[:-1]):
             log.error(
                 "any part but the last part of the IPv4 address is greater than 255: "
                 "%r (%r)",
-- 
2.43.0


From 02f94cc76862f616222f6c8ed550a199160de6ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:41:21 +0000
Subject: [PATCH 03/20] fix: require an IPv4 part to end an IPv6 address

---
 src/urlstd/parse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/urlstd/parse.py b/src/urlstd/parse.py
index ad265ae..9669d51 100644
--- a/src/urlstd/parse.py
+++ b/src/urlstd/parse.py
@@ -1424,7 +1424,7 @@ class IPv6Address:
                     f"IPv6 address has more than 6 pieces: {address!r}"
                 )
             ipv4_pieces = piece.split(".")
-            if len(ipv4_pieces) > 4 or any(
+            if not iseof(c) or len(ipv4_pieces) > 4 or any(
                 [
                     len(x) == 0
                     or any(y not in ASCII_DIGITS for y in x)
-- 
2.43.0


From 8df5c3fe8f959e80f7d15771b54093e8e2f5992c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:41:29 +0000
Subject: [PATCH 04/20] fix: accept an IPv6 address whose compression is its
 last piece

---
 src/urlstd/parse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/urlstd/parse.py b/src/urlstd/parse.py
index 9669d51..5c0124b 100644
--- a/src/urlstd/parse.py
+++ b/src/urlstd/parse.py
@@ -1337,7 +1337,7 @@ class IPv6Address:
         piece = ""
         previous: Optional[str] = None
         for c in cpstream(address[start:]):
-            if piece_index >= 8:
+            if piece_index >= 8 and not iseof(c):
                 log.error(
                     "IPv6-too-many-pieces: "
                     "IPv6 address contains more than 8 pieces: %r",
-- 
2.43.0


From d1821598683611592d98f1843bb7cb4465dcbb2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:41:36 +0000
Subject: [PATCH 05/20] fix: do not fall through to the path state at the end
 of a file URL

---
 src/urlstd/parse.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/urlstd/parse.py b/src/urlstd/parse.py
index 5c0124b..201f04d 100644
--- a/src/urlstd/parse.py
+++ b/src/urlstd/parse.py
@@ -3189,6 +3189,7 @@ class BasicURLParser:
                     )
                     url.path = []
                 return URLParserState.PATH_STATE, index - 1
+            return URLParserState.EOF, index - 1
         return URLParserState.PATH_STATE, index - 1
 
     @classmethod
-- 
2.43.0


From b19c6300b8769d2bad97dd8d7a7a421fb8ceded8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:41:44 +0000
Subject: [PATCH 06/20] fix: treat port 0 as a port in the scheme and host
 state overrides

---
 src/urlstd/parse.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/urlstd/parse.py b/src/urlstd/parse.py
index 201f04d..d4787ac 100644
--- a/src/urlstd/parse.py
+++ b/src/urlstd/parse.py
@@ -3387,7 +3387,9 @@ class BasicURLParser:
                 elif (
                     state_override
                     and len(buffer) == 0
-                    and (url.includes_credentials() or url.port)
+                    and (
+                        url.includes_credentials() or url.port is not None
+                    )
                 ):
                     return URLParserState.EOF, index
                 url.host = Host.parse(buffer, url.is_not_special(), **kwargs)
@@ -3907,7 +3909,10 @@ class BasicURLParser:
                         (url.is_special() and buffer not in SPECIAL_SCHEMES)
                         or (url.is_not_special() and buffer in SPECIAL_SCHEMES)
                         or (
-                            (url.includes_credentials() or url.port)
+                            (
+                                url.includes_credentials()
+                                or url.port is not None
+                            )
                             and buffer == "file"
                         )
                         or (
-- 
2.43.0


From ea617be0e888038741141ebbad0ea31a4ec758c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:59 +0000
Subject: [PATCH 07/20] fix: handle very long digit strings in ports and
 IPv4-in-IPv6 parts

---
 src/urlstd/parse.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/urlstd/parse.py b/src/urlstd/parse.py
index d4787ac..33cc6fc 100644
--- a/src/urlstd/parse.py
+++ b/src/urlstd/parse.py
@@ -1448,7 +1448,7 @@ class IPv6Address:
                     f"IPv4 part contains a leading 0 / "
                     f"there are too many IPv4 parts: {piece!r} in {address!r}"
                 )
-            elif any([int(x) > 255 for x in ipv4_pieces]):
+            elif any([len(x) > 3 or int(x) > 255 for x in ipv4_pieces]):
                 log.error(
                     "IPv4-in-IPv6-out-of-range-part: "
                     "IPv6 address with IPv4 address syntax: "
@@ -3688,17 +3688,19 @@ class BasicURLParser:
                 or state_override
             ):
                 if len(buffer) > 0:
-                    port = int(buffer)
-                    if port > 0xFFFF:
+                    # int() limits the length of decimal strings
+                    digits = buffer.lstrip("0") or "0"
+                    if len(digits) > 5 or int(digits) > 0xFFFF:
                         log.error(
-                            "port-out-of-range: input’s port is too big: %d in %r",
-                            port,
+                            "port-out-of-range: input’s port is too big: %s in %r",
+                            digits,
                             urlstring,
                             **kwargs,
                         )
                         raise URLParseError(
-                            f"input’s port is too big: {port} in {urlstring!r}"
+                            f"input’s port is too big: {digits} in {urlstring!r}"
                         )
+                    port = int(digits)
                     if SPECIAL_SCHEMES.get(url.scheme) == port:
                         url.port = None
                     else:
-- 
2.43.0


From 7b3fe5edbf3dae1d13e8424f6dfaf8dc5ac0e57c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:07 +0000
Subject: [PATCH 08/20] fix: percent-encode U+007E (~) in
 application/x-www-form-urlencoded

---
 src/urlstd/parse.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/urlstd/parse.py b/src/urlstd/parse.py
index 33cc6fc..b01cac6 100644
--- a/src/urlstd/parse.py
+++ b/src/urlstd/parse.py
@@ -418,7 +418,8 @@ def urlencode(
             space_as_plus=True,
         )
         params.append(f"{name}={value}")
-    return "&".join(params)
+    # quote() never encodes U+007E (~), but it is in the percent-encode set
+    return "&".join(params).replace("~", "%7E")
 
 
 def urlparse(
-- 
2.43.0


From a4d3501cf66d1dc9e089c8918e47697342b317b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:17 +0000
Subject: [PATCH 09/20] fix: do not percent-decode names and values passed to
 URLSearchParams

---
 src/urlstd/parse.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/urlstd/parse.py b/src/urlstd/parse.py
index b01cac6..0c22016 100644
--- a/src/urlstd/parse.py
+++ b/src/urlstd/parse.py
@@ -2119,8 +2119,8 @@ class URLSearchParams(Collection):
             >>> list(params)
             [('a', '1'), ('b', '2'), ('a', '3')]
         """
-        name = utf8_decode(string_percent_decode(name))
-        value = utf8_decode(string_percent_decode(str(value)))
+        name = utf8_decode(utf8_encode(name))
+        value = utf8_decode(utf8_encode(str(value)))
         self._list.append((name, value))
         self._update()
 
@@ -2158,7 +2158,7 @@ class URLSearchParams(Collection):
             >>> list(params)
             [('a', '1'), ('b', '2')]
         """
-        name = utf8_decode(string_percent_decode(name))
+        name = utf8_decode(utf8_encode(name))
         for i, name_value in reversed(list(enumerate(self._list))):
             if name_value[0] == name:
                 if value is not None and name_value[1] != value:
@@ -2193,7 +2193,7 @@ class URLSearchParams(Collection):
             '1'
             >>> params.get('c')  # → None
         """
-        name = utf8_decode(string_percent_decode(name))
+        name = utf8_decode(utf8_encode(name))
         for name_value in self._list:
             if name_value[0] == name:
                 return name_value[1]
@@ -2216,7 +2216,7 @@ class URLSearchParams(Collection):
             >>> params.get_all('c')
             ()
         """
-        name = utf8_decode(string_percent_decode(name))
+        name = utf8_decode(utf8_encode(name))
         return tuple(
             [
                 name_value[1]
@@ -2239,7 +2239,7 @@ class URLSearchParams(Collection):
             *True* if a name-value pair with the specified *name* and *value* exists,
             *False* otherwise.
         """
-        name = utf8_decode(string_percent_decode(name))
+        name = utf8_decode(utf8_encode(name))
         for name_value in self._list:
             if name_value[0] == name:
                 if value is not None and name_value[1] != value:
@@ -2272,8 +2272,8 @@ class URLSearchParams(Collection):
             >>> list(params)
             [('a', '4'), ('b', '2')]
         """
-        name = utf8_decode(string_percent_decode(name))
-        value = utf8_decode(string_percent_decode(str(value)))
+        name = utf8_decode(utf8_encode(name))
+        value = utf8_decode(utf8_encode(str(value)))
         items = self._list
         found = -1
         for index, name_value in enumerate(items):
-- 
2.43.0


From 03833c142037086bec809db4e0f1cf44a6b7200d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:25 +0000
Subject: [PATCH 10/20] fix: convert the value argument of
 URLSearchParams.has() and delete()

---
 src/urlstd/parse.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/urlstd/parse.py b/src/urlstd/parse.py
index 0c22016..2731884 100644
--- a/src/urlstd/parse.py
+++ b/src/urlstd/parse.py
@@ -2159,6 +2159,8 @@ class URLSearchParams(Collection):
             [('a', '1'), ('b', '2')]
         """
         name = utf8_decode(utf8_encode(name))
+        if value is not None:
+            value = utf8_decode(utf8_encode(str(value)))
         for i, name_value in reversed(list(enumerate(self._list))):
             if name_value[0] == name:
                 if value is not None and name_value[1] != value:
@@ -2240,6 +2242,8 @@ class URLSearchParams(Collection):
             *False* otherwise.
         """
         name = utf8_decode(utf8_encode(name))
+        if value is not None:
+            value = utf8_decode(utf8_encode(str(value)))
         for name_value in self._list:
             if name_value[0] == name:
                 if value is not None and name_value[1] != value:
-- 
2.43.0


From 3f0ff77719745dcc686048cb2eafa4b6b2ed3aac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:32 +0000
Subject: [PATCH 11/20] fix: replace lone surrogates before IDNA processing

---
 src/urlstd/parse.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/urlstd/parse.py b/src/urlstd/parse.py
index 2731884..c327584 100644
--- a/src/urlstd/parse.py
+++ b/src/urlstd/parse.py
@@ -1039,6 +1039,7 @@ class IDNA:
             urlstd.error.IDNAError: Raised when IDNA processing fails.
         """
         log = get_logger(cls)
+        domain = utf8_decode(utf8_encode(domain))
         info = icu.IDNAInfo()
         try:
             options = (
@@ -1118,6 +1119,7 @@ class IDNA:
             urlstd.error.IDNAError: Raised when IDNA processing fails.
         """
         log = get_logger(cls)
+        domain = utf8_decode(utf8_encode(domain))
         info = icu.IDNAInfo()
         try:
             options = (
-- 
2.43.0


From 626c649f5db6d18aae4bea690d92adf60ea7e221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:40 +0000
Subject: [PATCH 12/20] fix: keep surrogate pairs together in opaque paths

---
 src/urlstd/parse.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/urlstd/parse.py b/src/urlstd/parse.py
index c327584..e552934 100644
--- a/src/urlstd/parse.py
+++ b/src/urlstd/parse.py
@@ -3467,9 +3467,13 @@ class BasicURLParser:
         del base
         log = get_logger(cls)
         index = start
-        # TODO: Use buffer.
+        buffer = ""
         for c in cpstream(urlstring[index:]):
             index += 1
+            if iseof(c) or iscp(c, "?#"):
+                url.path += utf8_percent_encode(  # type: ignore
+                    buffer, SAFE_C0_CONTROL_PERCENT_ENCODE_SET
+                )
             if c == "?":
                 url.query = ""
                 return URLParserState.QUERY_STATE, index
@@ -3509,9 +3513,7 @@ class BasicURLParser:
                     # return URLParserState.EOF, index - 1
                     break
                 else:
-                    url.path += utf8_percent_encode(  # type: ignore
-                        c, SAFE_C0_CONTROL_PERCENT_ENCODE_SET
-                    )
+                    buffer += c
         return URLParserState.EOF, index - 1
 
     @classmethod
-- 
2.43.0


From 64e960d2152fbf556ee4c9151fdf65c3cbf025bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:48 +0000
Subject: [PATCH 13/20] fix: percent-encode character references after a
 stateful encoder

---
 src/urlstd/parse.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/urlstd/parse.py b/src/urlstd/parse.py
index e552934..960786a 100644
--- a/src/urlstd/parse.py
+++ b/src/urlstd/parse.py
@@ -356,11 +356,15 @@ def string_percent_encode(
         pass
 
     output = ""
-    for b in codecs.iterencode(s, encoding, errors="xmlcharrefreplace"):
-        if b.startswith(b"&#"):
-            output += quote_via(b)  # "%26%23" ASCII-digits "%3B"
-        else:
-            output += quote_via(b, safe=safe)
+    encoder = codecs.getincrementalencoder(encoding)(errors="strict")
+    for c in s:
+        try:
+            output += quote_via(encoder.encode(c), safe=safe)
+        except UnicodeEncodeError:
+            # a stateful encoder returns to its initial state first
+            output += quote_via(encoder.encode("", True), safe=safe)
+            output += quote_via(f"&#{ord(c)};")  # "%26%23" ASCII-digits "%3B"
+    output += quote_via(encoder.encode("", True), safe=safe)
     return output
 
 
-- 
2.43.0


From 319a30138aa6dd31484401a0e9523a5e7ff5118e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:28 +0000
Subject: [PATCH 14/20] fix: do not depend on the global logger class for the
 validity argument

---
 src/urlstd/parse.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/urlstd/parse.py b/src/urlstd/parse.py
index 960786a..3476033 100644
--- a/src/urlstd/parse.py
+++ b/src/urlstd/parse.py
@@ -168,7 +168,7 @@ def get_logger(context: Any) -> logging.Logger:
         name = f"{context.__module__}.{context.__name__}"
     elif hasattr(context, "__module__") and hasattr(context, "__class__"):
         name = f"{context.__module__}.{context.__class__.__name__}"
-    return logging.getLogger(name)
+    return _Logger(logging.getLogger(name), {})  # type: ignore
 
 
 def iscp(c: str, target: str) -> bool:
@@ -557,13 +557,13 @@ def utf8_percent_encode(s: str, safe: str, space_as_plus: bool = False) -> str:
     )
 
 
-class _Logger(logging.getLoggerClass()):  # type: ignore [misc]
+class _Logger(logging.LoggerAdapter):
     def debug(self, msg, *args, **kwargs) -> None:
         kwargs.setdefault("stacklevel", 2)
         validity: ValidityState | None = kwargs.pop("validity", None)
         if validity and validity.disable_logging:
             return
-        super().debug(msg, *args, **kwargs)
+        self.logger.debug(msg, *args, **kwargs)
 
     def error(self, msg, *args, **kwargs) -> None:
         kwargs.setdefault("stacklevel", 2)
@@ -572,7 +572,7 @@ class _Logger(logging.getLoggerClass()):  # type: ignore [misc]
             validity.prepend(msg, *args)
             if validity.disable_logging:
                 return
-        super().error(msg, *args, **kwargs)
+        self.logger.error(msg, *args, **kwargs)
 
     def info(self, msg, *args, **kwargs) -> None:
         kwargs.setdefault("stacklevel", 2)
@@ -581,7 +581,7 @@ class _Logger(logging.getLoggerClass()):  # type: ignore [misc]
             validity.prepend(msg, *args)
             if validity.disable_logging:
                 return
-        super().info(msg, *args, **kwargs)
+        self.logger.info(msg, *args, **kwargs)
 
 
 class Host:
@@ -4383,6 +4383,3 @@ def parse_url(
     #  https://url.spec.whatwg.org/#url-parsing
     #  https://w3c.github.io/FileAPI/#blob-url-resolve
     return url
-
-
-logging.setLoggerClass(_Logger)
-- 
2.43.0


From 54d122f55c3c2d57cc431d275e94ea281f27a6dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:43 +0000
Subject: [PATCH 15/20] fix: reject an IPv6 address that begins with three
 colons

---
 src/urlstd/parse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/urlstd/parse.py b/src/urlstd/parse.py
index 3476033..ff519dc 100644
--- a/src/urlstd/parse.py
+++ b/src/urlstd/parse.py
@@ -1342,7 +1342,7 @@ class IPv6Address:
 
         ipv6_address = [0] * 8
         piece = ""
-        previous: Optional[str] = None
+        previous: Optional[str] = ":" if start > 0 else None
         for c in cpstream(address[start:]):
             if piece_index >= 8 and not iseof(c):
                 log.error(
-- 
2.43.0


From 6326590600c9d42ce7f21d2655b94c74b34db8fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:57:30 +0000
Subject: [PATCH 16/20] fix: report an out-of-range IPv4 number of any length
 as a parse error

---
 src/urlstd/parse.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/urlstd/parse.py b/src/urlstd/parse.py
index ff519dc..e5b1551 100644
--- a/src/urlstd/parse.py
+++ b/src/urlstd/parse.py
@@ -1265,7 +1265,9 @@ class IPv4Address:
                     address,
                     **kwargs,
                 )
-            numbers.append(result[0])
+            # 256**4 is out of range for any part, and unlike an arbitrarily large
+            # integer, it can always be converted to a string for error messages.
+            numbers.append(min(result[0], 256**4))
 
         if any(x > 255 for x in numbers):
             log.info(
-- 
2.43.0


From a707231f51cee7990eb1b0e36ac8623c2002d72f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:06 +0000
Subject: [PATCH 17/20] fix: compare URL schemes with the IANA registry
 ignoring ASCII case only

---
 src/urlstd/parse.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/urlstd/parse.py b/src/urlstd/parse.py
index e5b1551..97175e4 100644
--- a/src/urlstd/parse.py
+++ b/src/urlstd/parse.py
@@ -2981,7 +2981,8 @@ U+007C (|) in 'file:///C|/demo' at position 9"],
             validity.reset()
 
         # https://url.spec.whatwg.org/#url-scheme-string
-        scheme = value.lower()
+        # (only ASCII case is ignored: U+212A KELVIN SIGN is not a "k")
+        scheme = value.lower() if value.isascii() else value
         if len(scheme) > 0 and scheme in REGISTERED_SCHEMES:
             return True
         validity.prepend(
-- 
2.43.0


From 66e1f84197d8743dcd1b069f13fdd199a914c869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:25:57 +0000
Subject: [PATCH 18/20] fix: treat an empty domain as a domain in
 is_same_origin_domain()

---
 src/urlstd/parse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/urlstd/parse.py b/src/urlstd/parse.py
index 97175e4..90649b7 100644
--- a/src/urlstd/parse.py
+++ b/src/urlstd/parse.py
@@ -1626,7 +1626,7 @@ class Origin(NamedTuple):
         """
         if (
             self.scheme == other.scheme
-            and self.domain
+            and self.domain is not None
             and self.domain == other.domain
         ) or (
             self.is_same_origin(other)
-- 
2.43.0


From 377a0a3a8af63caee0c06b33eba88bd16f0d11c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:52:27 +0000
Subject: [PATCH 19/20] fix: use UTF-8 as the output encoding of utf-16

---
 src/urlstd/parse.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/urlstd/parse.py b/src/urlstd/parse.py
index 90649b7..a612f2a 100644
--- a/src/urlstd/parse.py
+++ b/src/urlstd/parse.py
@@ -139,7 +139,17 @@ UTF8_CODECS = frozenset(["utf_8", "u8", "utf", "utf8", "cp65001"])
 
 UTF16BE_CODECS = frozenset(["utf_16_be", "utf-16be", "utf-16-be"])
 
-UTF16LE_CODECS = frozenset(["utf_16_le", "utf-16le", "utf-16-le"])
+UTF16LE_CODECS = frozenset(
+    [
+        "utf_16",
+        "u16",
+        "utf16",
+        "utf-16",
+        "utf_16_le",
+        "utf-16le",
+        "utf-16-le",
+    ]
+)
 
 ERROR_TYPE_UNDEFINED = "undefined"
 
-- 
2.43.0


From e63b94ae5082bf5a948c23781bc2cdf3e738a757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:16 +0000
Subject: [PATCH 20/20] fix: report decimal IPv4 parts of thousands of digits
 as out of range

int() refuses strings of more than sys.get_int_max_str_digits() digits, which
was reported as IPv4-non-numeric-part.
---
 src/urlstd/parse.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/urlstd/parse.py b/src/urlstd/parse.py
index a612f2a..fa2f1b8 100644
--- a/src/urlstd/parse.py
+++ b/src/urlstd/parse.py
@@ -879,7 +879,7 @@ more than one spot: '1::1::1'"],
                     )
                 return False
 
-            if not (0 <= int(part) <= 255):
+            if not (0 <= result[0] <= 255):
                 if validity:
                     validity.prepend(
                         "IPv4-out-of-range-part: "
@@ -1209,8 +1209,8 @@ class IPv4Address:
         try:
             return int(address, r), validation_error
         except ValueError:
-            pass
-        return -1, True
+            # more digits than int() converts (decimal without leading zeros)
+            return 256**4, validation_error
 
     @classmethod
     def is_ends_in_a_number(cls, address: str) -> bool:
-- 
2.43.0

