From ca4c05362d290d064a97ba1cb69b65bd4ab12f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:15 +0000
Subject: [PATCH 01/23] fix: don't crash on URIs that the standard library
 refuses to split

Values like 'Host: [V1.a]' or 'Location: http://[V1.a]/' match RFC 3986
but make urlparse and urljoin raise ValueError.
---
 httpolice/request.py  |  7 ++++---
 httpolice/response.py | 13 +++++++------
 httpolice/util/uri.py | 33 +++++++++++++++++++++++++++++++++
 3 files changed, 44 insertions(+), 9 deletions(-)
 create mode 100644 httpolice/util/uri.py

diff --git a/httpolice/request.py b/httpolice/request.py
index 5a3e717..59c852f 100644
--- a/httpolice/request.py
+++ b/httpolice/request.py
@@ -2,7 +2,7 @@ import base64
 import fnmatch
 import itertools
 import string
-from urllib.parse import parse_qs, urlparse
+from urllib.parse import parse_qs
 
 from httpolice import known, message
 from httpolice.blackboard import derived_property
@@ -16,6 +16,7 @@ from httpolice.syntax.rfc7230 import (absolute_form, asterisk_form,
                                       authority_form, origin_form)
 from httpolice.util.data import duplicates, iterbytes
 from httpolice.util.text import force_unicode
+from httpolice.util.uri import split_uri
 
 
 normal_target = mark(origin_form) | mark(absolute_form)
@@ -182,7 +183,7 @@ class Request(message.Message):
         # so this property should be understood as "salvageable query params."
         if not okay(self.effective_uri):
             return {}
-        return parse_qs(urlparse(self.effective_uri).query)
+        return parse_qs(split_uri(self.effective_uri).query)
 
     @derived_property
     def has_body(self):
@@ -272,7 +273,7 @@ def check_request(req):
 
     if headers.referer.is_okay:
         if req.is_tls is False:
-            parsed = urlparse(headers.referer.value)
+            parsed = split_uri(headers.referer.value)
             if parsed.scheme == u'https':
                 complain(1068)
 
diff --git a/httpolice/response.py b/httpolice/response.py
index ba853c1..3320fd3 100644
--- a/httpolice/response.py
+++ b/httpolice/response.py
@@ -1,5 +1,4 @@
 from datetime import datetime, timedelta
-from urllib.parse import urljoin, urlparse
 
 from httpolice import known, message
 from httpolice.blackboard import derived_property
@@ -12,6 +11,7 @@ from httpolice.syntax import rfc6749, rfc7230
 from httpolice.util.data import duplicates
 from httpolice.util.text import (contains_percent_encodes, force_unicode,
                                  is_ascii)
+from httpolice.util.uri import resolve_uri, split_uri
 
 
 class Response(message.Message):
@@ -292,7 +292,7 @@ def check_response_itself(resp):
         complain(1110)
 
     if status == st.created and headers.location.is_okay and \
-            urlparse(headers.location.value).fragment:
+            split_uri(headers.location.value).fragment:
         complain(1111)
 
     if headers.date < headers.last_modified.value:
@@ -542,8 +542,9 @@ def check_response_in_context(resp, req):
         complain(1071)
 
     if resp.headers.content_location.is_okay and req.effective_uri:
-        if req.effective_uri == urljoin(req.effective_uri,
-                                        resp.headers.content_location.value):
+        content_location = resolve_uri(req.effective_uri,
+                                       resp.headers.content_location.value)
+        if req.effective_uri == content_location:
             if method in [m.GET, m.HEAD] and \
                     status in [st.ok, st.non_authoritative_information,
                                st.no_content, st.partial_content,
@@ -553,8 +554,8 @@ def check_response_in_context(resp, req):
                 complain(1060)
 
     if resp.headers.location.is_okay and req.effective_uri and req.scheme:
-        if req.effective_uri == urljoin(req.effective_uri,
-                                        resp.headers.location.value):
+        if req.effective_uri == resolve_uri(req.effective_uri,
+                                            resp.headers.location.value):
             if status in [st.multiple_choices, st.temporary_redirect,
                           st.permanent_redirect]:
                 complain(1085)
diff --git a/httpolice/util/uri.py b/httpolice/util/uri.py
new file mode 100644
index 0000000..b9e91e2
--- /dev/null
+++ b/httpolice/util/uri.py
@@ -0,0 +1,33 @@
+from urllib.parse import ParseResult, urljoin, urlparse
+
+
+def split_uri(uri):
+    """
+    Like `urlparse`, but returns all empty components when the standard library
+    refuses to parse `uri` (which can happen even if it matches RFC 3986).
+
+    >>> split_uri(u'https://example.com/foo').scheme
+    'https'
+    >>> split_uri(u'https://[V1.a]/foo').scheme
+    ''
+    """
+    try:
+        return urlparse(uri)
+    except ValueError:
+        return ParseResult(u'', u'', u'', u'', u'', u'')
+
+
+def resolve_uri(base, ref):
+    """
+    Like `urljoin`, but returns `None` when the standard library
+    refuses to parse `base` or `ref`.
+
+    >>> resolve_uri(u'http://example.com/foo', u'/bar')
+    'http://example.com/bar'
+    >>> print(resolve_uri(u'http://example.com/foo', u'http://[V1.a]/'))
+    None
+    """
+    try:
+        return urljoin(base, ref)
+    except ValueError:
+        return None
-- 
2.43.0


From c364f1d6604f1a3f21b52396c6b0c66180318898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:52 +0000
Subject: [PATCH 02/23] fix: don't crash on numbers with thousands of digits

int() and str() raise ValueError on more than 4300 decimal digits.
---
 httpolice/syntax/internal.py |  3 ++-
 httpolice/syntax/rfc6797.py  |  3 ++-
 httpolice/syntax/rfc7230.py  |  3 ++-
 httpolice/syntax/rfc7231.py  |  5 +++--
 httpolice/syntax/rfc7233.py  |  9 +++++----
 httpolice/syntax/rfc7234.py  |  3 ++-
 httpolice/util/data.py       | 20 ++++++++++++++++++++
 7 files changed, 36 insertions(+), 10 deletions(-)

diff --git a/httpolice/syntax/internal.py b/httpolice/syntax/internal.py
index 3c85ad9..620f556 100644
--- a/httpolice/syntax/internal.py
+++ b/httpolice/syntax/internal.py
@@ -2,9 +2,10 @@ from httpolice.parse import (fill_names, literal, maybe, pivot, skip, string1,
                              subst)
 from httpolice.syntax.common import DIGIT
 from httpolice.syntax.rfc7230 import RWS, comma_list
+from httpolice.util.data import natural
 
 
-notice_id = int << string1(DIGIT)                                       > pivot
+notice_id = natural << string1(DIGIT)                                   > pivot
 resp = subst(True) << literal('resp')                                   > pivot
 HTTPolice_Silence = comma_list(notice_id * maybe(skip(RWS) * resp))     > pivot
 
diff --git a/httpolice/syntax/rfc6797.py b/httpolice/syntax/rfc6797.py
index 027d850..7671038 100644
--- a/httpolice/syntax/rfc6797.py
+++ b/httpolice/syntax/rfc6797.py
@@ -3,6 +3,7 @@ from httpolice.parse import auto, fill_names, many, maybe, pivot, skip, string1
 from httpolice.structure import HSTSDirective, Parametrized
 from httpolice.syntax.common import DIGIT
 from httpolice.syntax.rfc7230 import OWS, quoted_string, token
+from httpolice.util.data import natural
 
 
 # This has been slightly adapted to the rules of RFC 7230.
@@ -19,6 +20,6 @@ def _collect_elements(xs):
 Strict_Transport_Security = _collect_elements << (
     maybe(directive) % many(skip(OWS * ';' * OWS) * maybe(directive)))  > pivot
 
-max_age_value = int << string1(DIGIT)                                   > pivot
+max_age_value = natural << string1(DIGIT)                               > pivot
 
 fill_names(globals(), RFC(6797))
diff --git a/httpolice/syntax/rfc7230.py b/httpolice/syntax/rfc7230.py
index d3f57a4..dd72842 100644
--- a/httpolice/syntax/rfc7230.py
+++ b/httpolice/syntax/rfc7230.py
@@ -10,6 +10,7 @@ from httpolice.syntax.common import ALPHA, DIGIT, DQUOTE, HTAB, SP, VCHAR
 from httpolice.syntax.rfc3986 import (absolute_URI, authority,
                                       host as uri_host, port, query,
                                       relative_part, segment)
+from httpolice.util.data import natural
 
 
 obs_text = octet_range(0x80, 0xFF)                                      > auto
@@ -161,6 +162,6 @@ Via = comma_list1(received_protocol * skip(RWS) *
                   received_by *
                   maybe(skip(RWS) * comment(include_parens=False)))     > pivot
 
-Content_Length = int << string1(DIGIT)                                  > pivot
+Content_Length = natural << string1(DIGIT)                              > pivot
 
 fill_names(globals(), RFC(7230))
diff --git a/httpolice/syntax/rfc7231.py b/httpolice/syntax/rfc7231.py
index 38f77cc..cf5f350 100644
--- a/httpolice/syntax/rfc7231.py
+++ b/httpolice/syntax/rfc7231.py
@@ -14,6 +14,7 @@ from httpolice.syntax.rfc5646 import Language_Tag as language_tag
 from httpolice.syntax.rfc7230 import (OWS, RWS, comma_list, comma_list1,
                                       comment, field_name, method, partial_URI,
                                       quoted_string, token, token__excluding)
+from httpolice.util.data import natural
 
 
 # The standard library's day and month names are locale-dependent,
@@ -213,7 +214,7 @@ Accept_Encoding = comma_list(Parametrized << codings * maybe(weight))   > pivot
 Accept_Language = comma_list1(
     Parametrized << language_range * maybe(weight))                     > pivot
 
-delay_seconds = int << string1(DIGIT)                                   > pivot
+delay_seconds = natural << string1(DIGIT)                               > pivot
 Retry_After = HTTP_date | delay_seconds                                 > pivot
 
 Allow = comma_list(method)                                              > pivot
@@ -223,7 +224,7 @@ Content_Location = absolute_URI | partial_URI                           > pivot
 Content_Type = media_type                                               > pivot
 Date = HTTP_date                                                        > pivot
 Location = URI_reference                                                > pivot
-Max_Forwards = int << string1(DIGIT)                                    > pivot
+Max_Forwards = natural << string1(DIGIT)                                > pivot
 Referer = absolute_URI | partial_URI                                    > pivot
 Vary = '*' | comma_list1(field_name)                                    > pivot
 Expect = CaseInsensitive << literal('100-continue')                     > pivot
diff --git a/httpolice/syntax/rfc7233.py b/httpolice/syntax/rfc7233.py
index 18d1c83..3ce1e8f 100644
--- a/httpolice/syntax/rfc7233.py
+++ b/httpolice/syntax/rfc7233.py
@@ -7,6 +7,7 @@ from httpolice.syntax.common import CHAR, DIGIT, SP, VCHAR
 from httpolice.syntax.rfc7230 import comma_list1, token__excluding
 from httpolice.syntax.rfc7231 import HTTP_date
 from httpolice.syntax.rfc7232 import entity_tag
+from httpolice.util.data import natural
 
 
 bytes_unit = RangeUnit << literal('bytes')                              > auto
@@ -22,12 +23,12 @@ def _well_formed1(complain, first, last):
         complain(1133)
     return (first, last)
 
-first_byte_pos = int << string1(DIGIT)                                  > auto
-last_byte_pos = int << string1(DIGIT)                                   > auto
+first_byte_pos = natural << string1(DIGIT)                              > auto
+last_byte_pos = natural << string1(DIGIT)                               > auto
 byte_range_spec = _well_formed1 << (first_byte_pos * skip('-') *
                                     maybe(last_byte_pos))               > pivot
 
-suffix_length = int << string1(DIGIT)                                   > auto
+suffix_length = natural << string1(DIGIT)                               > auto
 suffix_byte_range_spec = \
     (lambda x: (None, x)) << skip('-') * suffix_length                  > pivot
 
@@ -42,7 +43,7 @@ other_ranges_specifier = RangeSpecifier << (
 Range = byte_ranges_specifier | other_ranges_specifier                  > pivot
 
 byte_range = first_byte_pos * skip('-') * last_byte_pos                 > auto
-complete_length = int << string1(DIGIT)                                 > auto
+complete_length = natural << string1(DIGIT)                             > auto
 byte_range_resp = (
     byte_range * skip('/') *
     (complete_length | subst(None) << literal('*')))                    > pivot
diff --git a/httpolice/syntax/rfc7234.py b/httpolice/syntax/rfc7234.py
index 6e2a0a9..8d713b0 100644
--- a/httpolice/syntax/rfc7234.py
+++ b/httpolice/syntax/rfc7234.py
@@ -8,9 +8,10 @@ from httpolice.syntax.rfc7230 import (comma_list, comma_list1, field_name,
                                       port, pseudonym, quoted_string, token,
                                       token__excluding, uri_host)
 from httpolice.syntax.rfc7231 import HTTP_date
+from httpolice.util.data import natural
 
 
-delta_seconds = int << string1(DIGIT)                                   > pivot
+delta_seconds = natural << string1(DIGIT)                               > pivot
 Age = delta_seconds                                                     > pivot
 
 cache_directive = Parametrized << (
diff --git a/httpolice/util/data.py b/httpolice/util/data.py
index eb25807..b947482 100644
--- a/httpolice/util/data.py
+++ b/httpolice/util/data.py
@@ -17,3 +17,23 @@ def iterbytes(bs):
     """
     for b in bs:
         yield bytes((b,))
+
+
+def natural(digits, base=10):
+    """
+    Convert `digits` to an integer of any size that can occur in practice.
+
+    The standard library refuses to convert very long strings of decimal digits
+    to integers (or the other way round), so longer ones are saturated
+    at a value that is greater than all the others.
+
+    >>> natural(u'0042')
+    42
+    >>> natural(u'ff', base=16)
+    255
+    >>> natural(u'9' * 100000) == natural(u'1' * 5000) == 10 ** 1000
+    True
+    """
+    if len(digits.lstrip(u'0')) > 1000:
+        return base ** 1000
+    return int(digits.lstrip(u'0') or u'0', base)
-- 
2.43.0


From 01cabae46411735b73f646105e4e52b90a3d0bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:00 +0000
Subject: [PATCH 03/23] fix: don't crash when Date plus Age is too far in the
 future

---
 httpolice/inputs/streams.py |  7 ++++---
 httpolice/response.py       |  8 ++++----
 httpolice/util/data.py      | 18 ++++++++++++++++++
 3 files changed, 26 insertions(+), 7 deletions(-)

diff --git a/httpolice/inputs/streams.py b/httpolice/inputs/streams.py
index 59b1915..8a9862c 100644
--- a/httpolice/inputs/streams.py
+++ b/httpolice/inputs/streams.py
@@ -1,5 +1,5 @@
 from collections import OrderedDict, namedtuple
-from datetime import datetime, timedelta
+from datetime import datetime
 import io
 import itertools
 import os
@@ -9,6 +9,7 @@ from httpolice.exchange import complaint_box
 from httpolice.framing1 import parse_streams
 from httpolice.inputs.common import InputError
 from httpolice.stream import Stream
+from httpolice.util.data import later
 from httpolice.util.text import decode_path
 
 
@@ -311,8 +312,8 @@ def _exchange_time(exchange, hint):
     for resp in exchange.responses:
         if resp.headers.date.is_okay:
             if resp.headers.age.is_okay:
-                return (resp.headers.date.value +
-                        timedelta(seconds=resp.headers.age.value))
+                time = later(resp.headers.date.value, resp.headers.age.value)
+                return datetime.max if time is None else time
             return resp.headers.date.value
     return hint
 
diff --git a/httpolice/response.py b/httpolice/response.py
index 3320fd3..976734a 100644
--- a/httpolice/response.py
+++ b/httpolice/response.py
@@ -8,7 +8,7 @@ from httpolice.parse import parse
 from httpolice.structure import (EntityTag, StatusCode, http2, http10, http11,
                                  okay)
 from httpolice.syntax import rfc6749, rfc7230
-from httpolice.util.data import duplicates
+from httpolice.util.data import duplicates, later
 from httpolice.util.text import (contains_percent_encodes, force_unicode,
                                  is_ascii)
 from httpolice.util.uri import resolve_uri, split_uri
@@ -114,9 +114,9 @@ class Response(message.Message):
             return False
 
         if self.headers.date.is_okay and self.headers.age.is_okay:
-            date = self.headers.date.value
-            age = timedelta(seconds=self.headers.age.value)
-            if date + age > datetime.utcnow() + timedelta(seconds=30):
+            time = later(self.headers.date.value, self.headers.age.value)
+            if time is None or \
+                    time > datetime.utcnow() + timedelta(seconds=30):
                 self.complain(1241)
                 return None
 
diff --git a/httpolice/util/data.py b/httpolice/util/data.py
index b947482..2bb6986 100644
--- a/httpolice/util/data.py
+++ b/httpolice/util/data.py
@@ -1,4 +1,5 @@
 import collections
+from datetime import timedelta
 
 
 def duplicates(xs):
@@ -37,3 +38,20 @@ def natural(digits, base=10):
     if len(digits.lstrip(u'0')) > 1000:
         return base ** 1000
     return int(digits.lstrip(u'0') or u'0', base)
+
+
+def later(time, seconds):
+    """
+    The `datetime` that is this many seconds after `time`,
+    or `None` if that is beyond what `datetime` can represent.
+
+    >>> from datetime import datetime
+    >>> later(datetime(2019, 6, 27), 60)
+    datetime.datetime(2019, 6, 27, 0, 1)
+    >>> print(later(datetime(2019, 6, 27), 10 ** 15))
+    None
+    """
+    try:
+        return time + timedelta(seconds=seconds)
+    except OverflowError:
+        return None
-- 
2.43.0


From e4941ce50484da4ebc77760b29b5b2674166d6c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:07 +0000
Subject: [PATCH 04/23] fix: accept only hexadecimal digits as chunk size

int() also accepts signs, '0x', underscores and other whitespace,
so a chunk size of '-1' made the rest of the stream the chunk's data.
---
 httpolice/framing1.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/httpolice/framing1.py b/httpolice/framing1.py
index 3e6e04d..4b5b52c 100644
--- a/httpolice/framing1.py
+++ b/httpolice/framing1.py
@@ -11,6 +11,7 @@ from httpolice.request import Request
 from httpolice.response import Response
 from httpolice.structure import (FieldName, HeaderEntry, HTTPVersion, Method,
                                  StatusCode, Unavailable, okay)
+from httpolice.util.data import natural
 
 
 # Create empty symbols just for referring to them in parse errors.
@@ -26,6 +27,7 @@ chunk_size = Symbol(u'chunk-size', RFC(7230, section=u'4.1'))
 
 HTTP_VERSION = re.compile(u'^HTTP/[0-9]\\.[0-9]$')
 STATUS_CODE = re.compile(u'^[0-9]{3}$')
+CHUNK_SIZE = re.compile(u'^[0-9A-Fa-f]+$')
 
 
 MAX_BODY_SIZE = 1024 * 1024 * 1024
@@ -299,10 +301,10 @@ def _parse_chunk(stream, data):
         pos = stream.tell()
         (size_s, _, _) = stream.readline().partition(u';')
         with stream.parsing(chunk_size):
-            try:
-                size = int(size_s.rstrip(u' \t'), 16)     # RFC errata ID: 4667
-            except ValueError:
+            size_s = size_s.rstrip(u' \t')             # RFC errata ID: 4667
+            if not CHUNK_SIZE.match(size_s):
                 raise stream.error(pos)
+            size = natural(size_s, base=16)
         if size == 0:
             return False
         if size + current_size > MAX_BODY_SIZE:
-- 
2.43.0


From bc40a99e6538d873b6e7d8b8aab7c9d200317f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:16 +0000
Subject: [PATCH 05/23] fix: accept Saturday in RFC 850 dates

---
 httpolice/syntax/rfc7231.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/httpolice/syntax/rfc7231.py b/httpolice/syntax/rfc7231.py
index cf5f350..ab48223 100644
--- a/httpolice/syntax/rfc7231.py
+++ b/httpolice/syntax/rfc7231.py
@@ -20,7 +20,7 @@ from httpolice.util.data import natural
 # The standard library's day and month names are locale-dependent,
 # which brings in Unicode problems.
 _DAY_NAMES = [u'Monday', u'Tuesday', u'Wednesday', u'Thursday', u'Friday',
-              u'Saturady', u'Sunday']
+              u'Saturday', u'Sunday']
 _MONTH_NAMES = [u'Jan', u'Feb', u'Mar', u'Apr', u'May', u'Jun', u'Jul', u'Aug',
                 u'Sep', u'Oct', u'Nov', u'Dec']
 
-- 
2.43.0


From 9e60a811d55c5d035aeb0d7cc6d928f625ee80f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:38 +0000
Subject: [PATCH 06/23] fix: report a bad HAR file for values of a wrong type
 or form

For example, a string in place of an object raises AttributeError,
and a URL like 'http://[' raises ValueError.
---
 httpolice/inputs/har.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/httpolice/inputs/har.py b/httpolice/inputs/har.py
index 6b18632..6931835 100644
--- a/httpolice/inputs/har.py
+++ b/httpolice/inputs/har.py
@@ -32,7 +32,7 @@ def har_input(paths):
                 creator = data['log']['creator']['name']
                 for entry in data['log']['entries']:
                     yield _process_entry(entry, creator, path)
-            except (TypeError, KeyError) as exc:
+            except (AttributeError, KeyError, TypeError, ValueError) as exc:
                 raise InputError('%s: cannot understand HAR file: %r' %
                                  (path, exc)) from exc
 
-- 
2.43.0


From 6be1c6e869aba6e753d2c7bae1b91b7f3a752b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:33 +0000
Subject: [PATCH 07/23] fix: don't crash on Link parameters without a value or
 with a malformed rel

---
 httpolice/response.py       | 4 ++--
 httpolice/syntax/rfc8288.py | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/httpolice/response.py b/httpolice/response.py
index 976734a..dcdee8a 100644
--- a/httpolice/response.py
+++ b/httpolice/response.py
@@ -325,8 +325,8 @@ def check_response_itself(resp):
         complain(1162)
 
     if status == st.unavailable_for_legal_reasons:
-        if not any(u'blocked-by' in link.param.get(u'rel', [])
-                   for link in headers.link):
+        rels = [link.param.get(u'rel') for link in headers.link]
+        if not any(okay(rel) and u'blocked-by' in rel for rel in rels):
             complain(1243)
 
     if headers.content_disposition.is_okay:
diff --git a/httpolice/syntax/rfc8288.py b/httpolice/syntax/rfc8288.py
index 10d5c69..a7e7684 100644
--- a/httpolice/syntax/rfc8288.py
+++ b/httpolice/syntax/rfc8288.py
@@ -23,8 +23,7 @@ def _process_params(complain, params):
                 # "occurrences after the first MUST be ignored by parsers"
                 continue
             seen.add(name)
-        if value is not None:
-            (parsed_as, value) = value
+        (parsed_as, value) = value if value is not None else (None, None)
         if name == u'title' and parsed_as is token:
             complain(1307)
         if name == u'hreflang' and parsed_as is quoted_string:
@@ -34,8 +33,9 @@ def _process_params(complain, params):
             u'hreflang': hreflang, u'type': type_, u'title*': ext_value,
         }.get(name)
         if symbol is not None:
-            value = parse(value, symbol, complain, 1158,
-                          name=name, value=value)
+            # A missing value is like an empty one (RFC 8288 appendix B.3).
+            value = parse(value or u'', symbol, complain, 1158,
+                          name=name, value=value or u'')
         r.append((name, value))
         if name == u'rev':
             complain(1226)
-- 
2.43.0


From a18a8780952f055ba142d0329116cb237e8b6b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:45 +0000
Subject: [PATCH 08/23] fix: compare media ranges case-insensitively in notice
 1276

---
 httpolice/request.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/httpolice/request.py b/httpolice/request.py
index 59c852f..6b78f10 100644
--- a/httpolice/request.py
+++ b/httpolice/request.py
@@ -1,5 +1,4 @@
 import base64
-import fnmatch
 import itertools
 import string
 from urllib.parse import parse_qs
@@ -442,13 +441,13 @@ def _accept_subsumptions(items):
             q = 1.0
         elif isinstance(q, MultiDict):              # The ``Accept`` header.
             q = q.get(u'q', 1.0)
-        normalized.append((item, q))
+        normalized.append((item, item.lower(), q))
 
-    for ((item1, q1), (item2, q2)) in itertools.permutations(normalized, 2):
-        if (item1 == u'*' or item1.endswith(u'/*')) and \
-                fnmatch.fnmatch(item2, item1) and \
-                not fnmatch.fnmatch(item1, item2) and \
-                q1 == q2:
+    for ((item1, s1, q1), (item2, s2, q2)) in \
+            itertools.permutations(normalized, 2):
+        subsumes = s1 in [u'*', u'*/*'] or \
+            (s1.endswith(u'/*') and s2.startswith(s1[:-1]))
+        if subsumes and s1 != s2 and q1 == q2:
             yield (item1, item2)
 
 
-- 
2.43.0


From de679db83022140549940279237cf25b399f14b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:33 +0000
Subject: [PATCH 09/23] fix: report truncated gzip data and decode all gzip
 members

---
 httpolice/codings.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/httpolice/codings.py b/httpolice/codings.py
index b827432..0085d02 100644
--- a/httpolice/codings.py
+++ b/httpolice/codings.py
@@ -7,7 +7,16 @@ import brotli
 
 def decode_gzip(data):
     # Just ``decompress(data, 16 + zlib.MAX_WBITS)`` doesn't work.
-    return zlib.decompressobj(16 + zlib.MAX_WBITS).decompress(data)
+    # A gzip stream is a series of members (RFC 1952 section 2.2),
+    # and every one of them must be complete.
+    pieces = []
+    while data or not pieces:
+        member = zlib.decompressobj(16 + zlib.MAX_WBITS)
+        pieces.append(member.decompress(data))
+        if not member.eof:
+            raise zlib.error('incomplete or truncated gzip stream')
+        data = member.unused_data
+    return b''.join(pieces)
 
 
 def decode_deflate(data):
-- 
2.43.0


From 772f8579c2035a130a0bff2c79bc3b076915ca98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:33 +0000
Subject: [PATCH 10/23] fix: don't crash on a charset that names a non-text
 codec

---
 httpolice/message.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/httpolice/message.py b/httpolice/message.py
index c810134..48ca561 100644
--- a/httpolice/message.py
+++ b/httpolice/message.py
@@ -107,7 +107,8 @@ class Message(Blackboard):
         if okay(self.decoded_body):
             try:
                 self.decoded_body.decode(charset)   # pylint: disable=no-member
-            except UnicodeError:
+            except (LookupError, UnicodeError):
+                # `LookupError` is for codecs like "hex" that are not charsets.
                 return None
         return charset
 
-- 
2.43.0


From 2dc269647c16bfe8ce76a3b179e1a647bd9b888f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:33 +0000
Subject: [PATCH 11/23] fix: don't crash on XML in an unsupported encoding

---
 httpolice/message.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/httpolice/message.py b/httpolice/message.py
index 48ca561..b50da3b 100644
--- a/httpolice/message.py
+++ b/httpolice/message.py
@@ -158,6 +158,9 @@ class Message(Blackboard):
             except (xml.etree.ElementTree.ParseError, UnicodeError) as e:
                 self.complain(1039, error=e)
                 return Unavailable(self.decoded_body)
+            except (LookupError, ValueError):
+                # An encoding that our XML parser does not support.
+                return Unavailable(self.decoded_body)
         else:
             return None
 
-- 
2.43.0


From 5a0d2216f9f1fcd4a9f91972b0ba5abfa2e38317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:47 +0000
Subject: [PATCH 12/23] fix: don't crash on deeply nested JSON or huge numbers,
 reject NaN in JSON

---
 httpolice/message.py | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/httpolice/message.py b/httpolice/message.py
index b50da3b..3a1cc3e 100644
--- a/httpolice/message.py
+++ b/httpolice/message.py
@@ -35,6 +35,18 @@ URL_ENCODED_GOOD_CHARS = Bits(
 )
 
 
+def _parse_json_int(s):
+    try:
+        return int(s)
+    except ValueError:      # Python limits the number of digits.
+        return float(s)
+
+
+def _reject_json_constant(s):
+    # Python accepts ``NaN`` and ``Infinity``, but they are not JSON.
+    raise ValueError(u'%s is not valid JSON' % s)
+
+
 class Message(Blackboard):
 
     """An HTTP message (request or response)."""
@@ -132,7 +144,10 @@ class Message(Blackboard):
                 known.media_type.is_json(self.headers.content_type.item) and \
                 okay(self.unicode_body) and self.content_is_full:
             try:
-                r = json.loads(self.unicode_body)
+                r = json.loads(self.unicode_body, parse_int=_parse_json_int,
+                               parse_constant=_reject_json_constant)
+            except RecursionError:      # Nested too deeply for us.
+                r = Unavailable(self.unicode_body)
             except ValueError as e:
                 self.complain(1038, error=e)
                 r = Unavailable(self.unicode_body)
@@ -214,8 +229,16 @@ class Message(Blackboard):
             if self.guessed_charset and self.guessed_charset != 'utf-8' else []
         pretty_printing = [u'pretty-printing']
 
+        pretty_json = None
         if okay(self.json_data):
-            r = json.dumps(self.json_data, indent=2, ensure_ascii=False)
+            try:
+                pretty_json = json.dumps(self.json_data,
+                                         indent=2, ensure_ascii=False)
+            except RecursionError:      # Nested too deeply for us.
+                pass
+
+        if pretty_json is not None:
+            r = pretty_json
             transforms = \
                 removing_te + removing_ce + decoding_charset + pretty_printing
         elif okay(self.unicode_body):
-- 
2.43.0


From eb590c5024520deb8690b7f41a3070be1eabd9be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:01 +0000
Subject: [PATCH 13/23] fix: determine nullability of left-recursive grammar
 symbols

Symbol.is_nullable recursed without end on a left-recursive symbol that is
not trivially nullable, so parsing with such a grammar raised RecursionError.
---
 httpolice/parse.py | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/httpolice/parse.py b/httpolice/parse.py
index 18e4816..f3a0aa9 100644
--- a/httpolice/parse.py
+++ b/httpolice/parse.py
@@ -376,9 +376,25 @@ class Nonterminal(Symbol):
 
     def is_nullable(self):
         if self._is_nullable is None:
-            self._is_nullable = any(all(sym.is_nullable()
-                                        for sym in rule.symbols)
-                                    for rule in self.rules)
+            # The grammar may be (left-)recursive, so we can't just recurse.
+            # Instead, find all symbols that matter, then propagate
+            # nullability until there are no more changes.
+            symbols = [self]
+            for symbol in symbols:
+                for rule in symbol.rules:
+                    symbols.extend(sym for sym in rule.symbols
+                                   if isinstance(sym, Nonterminal) and
+                                   sym not in symbols)
+            nullable = set()
+            n_known = None
+            while n_known != len(nullable):
+                n_known = len(nullable)
+                nullable.update(symbol for symbol in symbols
+                                if any(all(sym in nullable
+                                           for sym in rule.symbols)
+                                       for rule in symbol.rules))
+            for symbol in symbols:
+                symbol._is_nullable = symbol in nullable
         return self._is_nullable
 
 
-- 
2.43.0


From 85243a0e2e052be331a94f1d25269153e5411f37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:32 +0000
Subject: [PATCH 14/23] fix: silence a one-shot iterable of notices on the
 children of an exchange, too

---
 httpolice/blackboard.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/httpolice/blackboard.py b/httpolice/blackboard.py
index 7c2ffa3..358e6e2 100644
--- a/httpolice/blackboard.py
+++ b/httpolice/blackboard.py
@@ -64,6 +64,7 @@ class Blackboard:
           An iterable of notice IDs that will be silenced on this object,
           so they don't appear in :attr:`notices` or in reports.
         """
+        notice_ids = list(notice_ids)
         self._silenced.update(notice_ids)
         for child in self.children:
             child.silence(notice_ids)
-- 
2.43.0


From b436a19615711123222da77a8ec2479796f20fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:15 +0000
Subject: [PATCH 15/23] fix: status and warn codes are numbers in reports (int
 has no own __str__ since Python 3.8)

---
 httpolice/structure.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/httpolice/structure.py b/httpolice/structure.py
index c05700f..bc35618 100644
--- a/httpolice/structure.py
+++ b/httpolice/structure.py
@@ -198,6 +198,10 @@ class StatusCode(int):
     def __repr__(self):
         return 'StatusCode(%d)' % self
 
+    # Since Python 3.8, `int` doesn't have its own ``__str__``.
+    def __str__(self):
+        return '%d' % self
+
     informational = property(lambda self: 100 <= self <= 199)
     successful = property(lambda self: 200 <= self <= 299)
     redirection = property(lambda self: 300 <= self <= 399)
@@ -367,6 +371,10 @@ class WarnCode(int):
     def __repr__(self):
         return 'WarnCode(%d)' % self
 
+    # Since Python 3.8, `int` doesn't have its own ``__str__``.
+    def __str__(self):
+        return '%d' % self
+
 
 class AuthScheme(CaseInsensitive):
 
-- 
2.43.0


From bf31e0fec65c348d2f605263c1d441642fcabfa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:10 +0000
Subject: [PATCH 16/23] fix: deeply nested multipart bodies don't crash the
 analysis

---
 httpolice/message.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/httpolice/message.py b/httpolice/message.py
index 3a1cc3e..6700eb5 100644
--- a/httpolice/message.py
+++ b/httpolice/message.py
@@ -190,7 +190,10 @@ class Message(Blackboard):
             # and should be parseable as email message payloads.
             multipart_code = (b'Content-Type: ' + ctype.entries[0].value +
                               b'\r\n\r\n' + self.decoded_body)
-            parsed = parse_email_message(multipart_code)
+            try:
+                parsed = parse_email_message(multipart_code)
+            except RecursionError:      # Nested too deeply for us.
+                return Unavailable(self.decoded_body)
             for d in parsed.defects:
                 if isinstance(d, email.errors.NoBoundaryInMultipartDefect):
                     self.complain(1139)
-- 
2.43.0


From 3b301e333b32b3821b0d7cec0d318103ca311cfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:17 +0000
Subject: [PATCH 17/23] fix: url-encoded bodies can't contain any of :;<>?
 literally (no. 1040)

---
 httpolice/message.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/httpolice/message.py b/httpolice/message.py
index 6700eb5..ae51f32 100644
--- a/httpolice/message.py
+++ b/httpolice/message.py
@@ -29,8 +29,8 @@ from httpolice.util.text import force_unicode, format_chars, printable
 # by a "conformant" URL encoder.
 
 URL_ENCODED_GOOD_CHARS = Bits(
-    1 if (x in [0x25, 0x26, 0x2A, 0x2B, 0x2D, 0x2E, 0x5F] or
-          0x30 <= x < 0x40 or 0x41 <= x < 0x5B or 0x61 <= x < 0x7B) else 0
+    1 if (x in [0x25, 0x26, 0x2A, 0x2B, 0x2D, 0x2E, 0x3D, 0x5F] or
+          0x30 <= x < 0x3A or 0x41 <= x < 0x5B or 0x61 <= x < 0x7B) else 0
     for x in range(256)
 )
 
-- 
2.43.0


From 3738873ace432c50a696bab2108dbfa8c1717d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:18 +0000
Subject: [PATCH 18/23] fix: tcpick streams of one connection between equal
 addresses (or of connections that differ by port only) were dropped

---
 httpolice/inputs/streams.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/httpolice/inputs/streams.py b/httpolice/inputs/streams.py
index 8a9862c..81a417c 100644
--- a/httpolice/inputs/streams.py
+++ b/httpolice/inputs/streams.py
@@ -41,18 +41,20 @@ def tcpick_input(dir_paths):
         streams_info = []
         for name in os.listdir(dir_path):
             path = os.path.join(dir_path, name)
-            match = re.match(
-                r'^tcpick_(\d+)_([^_]+)_([^_]+)_[^.]+.(serv|clnt)\.dat$', name)
+            match = re.match(r'^tcpick_(\d+)_([^_]+)_([^_]+_[^.]+)\.'
+                             r'(serv|clnt)\.dat\Z', name)
             if not match:
                 raise InputError(u'wrong tcpick filename %s '
                                  u'(did you use the -F2 option?)' % name)
-            (counter, src, dest, direction) = match.groups()
-            counter = int(counter)
+            (counter, client, server, direction) = match.groups()
+            # The client and the server may have the same address.
+            (src, dest) = (u'client ' + client, u'server ' + server)
             if direction == 'serv':
                 (src, dest) = (dest, src)
             streams_info.append(_StreamInfo(path, source=src, destination=dest,
                                             connection_hint=counter,
-                                            time_hint=None, sort_hint=counter))
+                                            time_hint=None,
+                                            sort_hint=int(counter)))
         path_pairs.extend(_recombine_streams(streams_info))
 
     return _path_pairs_input(path_pairs, sniff_direction=True,
-- 
2.43.0


From 404febfe29b448718e05457d84f7efc2448e9c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:25 +0000
Subject: [PATCH 19/23] fix: tcpflow file names with an unrepresentable
 timestamp crashed with a traceback instead of an input error

---
 httpolice/inputs/streams.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/httpolice/inputs/streams.py b/httpolice/inputs/streams.py
index 81a417c..43af108 100644
--- a/httpolice/inputs/streams.py
+++ b/httpolice/inputs/streams.py
@@ -83,14 +83,18 @@ def tcpflow_input(dir_paths):
                                  u'(did you use the right -T option?)' % name)
             (timestamp, src, dest) = match.groups()
             timestamp = int(timestamp)
+            try:
+                time_hint = datetime.utcfromtimestamp(timestamp)
+            except (ValueError, OverflowError, OSError) as exc:
+                raise InputError(u'wrong timestamp in tcpflow filename %s' %
+                                 name) from exc
             if (src, dest) in seen:
                 raise InputError(u'duplicate source+destination address+port: '
                                  u'%s vs. %s' % (path, seen[(src, dest)]))
             seen[(src, dest)] = path
             streams_info.append(_StreamInfo(
                 path, source=src, destination=dest, connection_hint=None,
-                time_hint=datetime.utcfromtimestamp(timestamp),
-                sort_hint=timestamp))
+                time_hint=time_hint, sort_hint=timestamp))
         path_pairs.extend(_recombine_streams(streams_info))
 
     return _path_pairs_input(path_pairs, sniff_direction=True,
-- 
2.43.0


From cd3330741d4c63b68e775d2705289e7cfe64c80c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:58 +0000
Subject: [PATCH 20/23] fix: HAR values of a wrong type were taken into the
 exchange, and crashed the checks, instead of giving an input error

---
 httpolice/inputs/har.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/httpolice/inputs/har.py b/httpolice/inputs/har.py
index 6931835..ba53566 100644
--- a/httpolice/inputs/har.py
+++ b/httpolice/inputs/har.py
@@ -26,7 +26,7 @@ def har_input(paths):
         with io.open(path, 'rt', encoding='utf-8-sig') as f:
             try:
                 data = json.load(f)
-            except ValueError as exc:
+            except (ValueError, RecursionError) as exc:
                 raise InputError('%s: bad HAR file: %s' % (path, exc)) from exc
             try:
                 creator = data['log']['creator']['name']
@@ -43,7 +43,14 @@ def _process_entry(data, creator, path):
     return Exchange(req, [resp] if resp is not None else [])
 
 
+def _require_type(type_, *values):
+    for value in values:
+        if not isinstance(value, type_) or isinstance(value, bool):
+            raise TypeError('expected %s, got %r' % (type_.__name__, value))
+
+
 def _process_request(data, creator, path):
+    _require_type(str, data['method'], data['url'])
     version, header_entries = _process_message(data, creator)
     method = data['method']
     parsed = urlparse(data['url'])
@@ -81,6 +88,7 @@ def _process_request(data, creator, path):
     post = data.get('postData')
     if post and post.get('text'):
         text = post['text']
+        _require_type(str, text)
         if creator in FIDDLER and method == m.CONNECT and u'Fiddler' in text:
             # Fiddler's HAR export adds a body with debug information
             # to CONNECT requests.
@@ -98,6 +106,8 @@ def _process_request(data, creator, path):
 def _process_response(data, req, creator, path):
     if data['status'] == 0:          # Indicates error in Chrome.
         return None
+    _require_type(int, data['status'])
+    _require_type(str, data['statusText'], data['content'].get('text') or u'')
     version, header_entries = _process_message(data, creator)
     status = StatusCode(data['status'])
     reason = data['statusText']
@@ -149,6 +159,8 @@ def _process_response(data, req, creator, path):
 
 
 def _process_message(data, creator):
+    for d in data['headers']:
+        _require_type(str, d['name'])
     header_entries = [(FieldName(d['name']), d['value'])
                       for d in data['headers']]
     pop_pseudo_headers(header_entries)
-- 
2.43.0


From 373186c983b2ba047d23eef080ed0df2458c39c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:09 +0000
Subject: [PATCH 21/23] fix: parse deeply nested input without recursion

A header such as User-Agent with comments nested a few hundred deep made
parse() fail with RecursionError, which ended the whole analysis.
---
 httpolice/parse.py | 61 ++++++++++++++++++++++++++++++++++------------
 1 file changed, 46 insertions(+), 15 deletions(-)

diff --git a/httpolice/parse.py b/httpolice/parse.py
index f3a0aa9..eba24bf 100644
--- a/httpolice/parse.py
+++ b/httpolice/parse.py
@@ -40,6 +40,7 @@ to render ``text/xml`` as a link to the RFC, using :mod:`httpolice.known`.
 
 from collections import OrderedDict
 import operator
+from types import GeneratorType
 
 from bitstring import BitArray, Bits
 
@@ -804,8 +805,8 @@ def _inner_parse(data, target_symbol, annotate_classes):
                 break
 
     if i == length:             # Successfully parsed up to the end of stream.
-        results = _find_results(data, target_symbol, chart, i,
-                                [], annotate_classes)
+        results = _unroll(_find_results(data, target_symbol, chart, i,
+                                        [], annotate_classes))
         for start_i, _, result, complaints, annotations in results:
             # There may be multiple valid parses in case of ambiguities,
             # but in practice we just want
@@ -816,6 +817,30 @@ def _inner_parse(data, target_symbol, annotate_classes):
     raise _build_parse_error(data, target_symbol, chart)
 
 
+def _unroll(results):
+    # The input data may be nested deeper than Python can recurse
+    # (for example, nested comments). So, where `_find_results` needs
+    # the next result from another `_find_results`, it yields that other one,
+    # and we send it back the result (or `None` if there are no more).
+    stack = [results]
+    r = None
+    while stack:
+        try:
+            r = stack[-1].send(r)
+        except StopIteration:
+            stack.pop()
+            r = None
+        else:
+            if isinstance(r, GeneratorType):
+                stack.append(r)
+                r = None
+            elif len(stack) > 1:
+                stack.pop()
+            else:
+                yield r
+                r = None
+
+
 def _find_results(data, symbol, chart, end_i,
                   outer_parents, annotate_classes):
     # The trivial base case is to find the parse result of a terminal.
@@ -928,8 +953,8 @@ def _find_results(data, symbol, chart, end_i,
                     rs = _find_results(data, inner_symbol, chart, i, parents,
                                        annotate_classes)
 
-                # Get the next result for this symbol.
-                r = next(rs, None)
+                # Get the next result for this symbol (see `_unroll`).
+                r = yield rs
                 if r is None:
                     # None left, so we must fall back (to ``pos + 1``)
                     # and try other results for the previous symbol.
@@ -1014,14 +1039,20 @@ def _build_parse_error(data, target_symbol, chart):
                       expected=list(expected.items()), found=found)
 
 
-def _find_pivots(chart, symbol, start, stack=None):
-    if symbol.is_pivot:
-        yield symbol
-    else:
-        stack = (stack or []) + [(symbol, start)]
-        (_, items_idx, _) = chart[start]
-        parents = items_idx.get(symbol, [])
-        for (parent, _, _, parent_start) in parents:
-            if (parent, parent_start) not in stack:
-                for p in _find_pivots(chart, parent, parent_start, stack):
-                    yield p
+def _find_pivots(chart, symbol, start):
+    # The chain of symbols may be as long as the input data (for example,
+    # nested comments), so we can't just recurse.
+    seen = set()
+    to_visit = [(symbol, start)]
+    while to_visit:
+        (symbol, start) = to_visit.pop()
+        if (symbol, start) in seen:
+            continue
+        seen.add((symbol, start))
+        if symbol.is_pivot:
+            yield symbol
+        else:
+            (_, items_idx, _) = chart[start]
+            to_visit.extend((parent, parent_start)
+                            for (parent, _, _, parent_start)
+                            in items_idx.get(symbol, []))
-- 
2.43.0


From 2785f08985922574bced8c527fa1d387ad5076b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:57 +0000
Subject: [PATCH 22/23] fix: two-digit years of RFC 850 dates were always taken
 as 19xx

RFC 7231 Section 7.1.1.1 requires the past only for what would be more than
50 years in the future; "Thursday, 13-Nov-14" got a false notice 1108.
---
 httpolice/syntax/rfc7231.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/httpolice/syntax/rfc7231.py b/httpolice/syntax/rfc7231.py
index ab48223..7dabbc1 100644
--- a/httpolice/syntax/rfc7231.py
+++ b/httpolice/syntax/rfc7231.py
@@ -129,10 +129,21 @@ day_name_l = (
                  octet(0x61) * octet(0x79))
 )                                                                       > pivot
 
-date2 = _to_date << (
+@can_complain
+def _to_date_2digit(complain, d, m, y):
+    # "Recipients [...] MUST interpret a timestamp that appears to be
+    # more than 50 years in the future as representing the most recent year
+    # in the past that had the same last two digits."
+    today = date.today()
+    y += today.year - today.year % 100
+    if (y, m, d) > (today.year + 50, today.month, today.day):
+        y -= 100
+    return _to_date(complain, d, m, y)
+
+date2 = _to_date_2digit << (
     day * skip('-') *
     month * skip('-') *
-    ((lambda s: int('19' + s)) << string_times(2, 2, DIGIT)))           > pivot
+    (int << string_times(2, 2, DIGIT)))                                 > pivot
 
 rfc850_date = _to_datetime << (day_name_l * skip(',' * SP) *
                                date2 * skip(SP) *
-- 
2.43.0


From 0b1ecffc4151989787e4bb74312972de5ca82369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:10 +0000
Subject: [PATCH 23/23] fix: HAR request targets lost path parameters (;x) and
 empty queries

---
 httpolice/inputs/har.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/httpolice/inputs/har.py b/httpolice/inputs/har.py
index ba53566..5849e5d 100644
--- a/httpolice/inputs/har.py
+++ b/httpolice/inputs/har.py
@@ -1,7 +1,7 @@
 import base64
 import io
 import json
-from urllib.parse import urlparse
+from urllib.parse import urlsplit
 
 from httpolice.exchange import Exchange
 from httpolice.helpers import pop_pseudo_headers
@@ -53,7 +53,7 @@ def _process_request(data, creator, path):
     _require_type(str, data['method'], data['url'])
     version, header_entries = _process_message(data, creator)
     method = data['method']
-    parsed = urlparse(data['url'])
+    parsed = urlsplit(data['url'])
     scheme = parsed.scheme
 
     if method == m.CONNECT:
@@ -62,7 +62,7 @@ def _process_request(data, creator, path):
         # With HAR, we can't tell if the request was to a proxy or to a server.
         # So we force most requests into the "origin form" of the target,
         target = parsed.path
-        if parsed.query:
+        if u'?' in data['url'].partition(u'#')[0]:
             target += u'?' + parsed.query
     else:
         # However, if the request has no ``Host`` header,
-- 
2.43.0

